"""P21: sealed message framing is lossless for any content."""
import itertools
import os
import struct
import xml.etree.ElementTree as ET

from mc import authnet, core, env
from mc.core import need, same

PROP = "P21"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of message and sealed contents over an alphabet of framing tokens, part cuts, boundary and content-type spellings, sizes around the split size and damaged frames, on the real framing code and the real client against a strict independent reader and writer"
LEVEL_NOTE = "Complete over all sequences of up to three (thorough: four) of 15 framing tokens as message, as sealed data, as signature and as sealed tail in both directions, all two- and three-part cuts of them, all boundary spellings, and all declared lengths near the true one."
RULE = "one evaluation = one message framed or one reply opened; non-trivial when the content contains a framing token or several parts"
ASSUMPTIONS = ["sealed data is not shorter than the message", "beyond the length of the message, sealed data does not contain a complete part header", "replies arrive complete (HTTP checks the length)"]

PROTOS = ["application/HTTP-SPNEGO-session-encrypted", "application/HTTP-Kerberos-session-encrypted", "application/HTTP-CredSSP-session-encrypted"]
CREDSSP = PROTOS[2]
K16 = 16384
B = b"Encrypted Boundary"
TOK = [b"a", b"\r\n", b"--", B, b"--" + B + b"\r\n", b"--" + B + b"--\r\n", b"\tContent-Type: application/octet-stream\r\n", b"\tContent-Type: " + PROTOS[0].encode() + b"\r\n", b"\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length=3\r\n", b"\0", b"\x03\0\0\0", b" ", b"Length=5", b"\n", b"-- " + B + b"\r\n", b"--" + B + b"\r\n\tOriginalContent: Length=1\r\n--" + B + b"\r\n\tContent-Type: application/octet-stream\r\n\1\0\0\0h"]
SIMPLE = TOK[:15]


class Stub:
    """a security context whose sealed form the check decides"""

    def __init__(self, headers=(b"HDR",), tail=b"", pad=0, plains=()):
        self.headers, self.tail, self.pad, self.plains = list(headers), tail, pad, list(plains)
        self.sealed, self.opened = [], []

    def wrap_winrm(self, data):
        h = self.headers[len(self.sealed) % len(self.headers)]
        self.sealed.append((h, bytes(data)))
        return h, bytes(data) + self.tail, self.pad

    def unwrap_winrm(self, header, data):
        k = len(self.opened)
        self.opened.append((header, data))
        if header != self.headers[k % len(self.headers)]:
            raise Damaged("signature %r instead of %r" % (header[:40], self.headers[k % len(self.headers)][:40]))
        if data != self.plains[k] + self.tail:
            raise Damaged("sealed data %r instead of %r" % (data[:60], (self.plains[k] + self.tail)[:60]))
        return self.plains[k]


class Damaged(Exception):
    pass


def read_frame(body, proto, stub):
    """strict reader: the lengths of signature and sealed data are known from the provider"""
    pos = 0

    def eat(s):
        nonlocal pos
        need(body[pos:pos + len(s)] == s, "at %d of the frame: %r instead of %r" % (pos, body[pos:pos + 60], s[:60]), "frame layout")
        pos += len(s)
    out = []
    for h, data in stub.sealed:
        eat(b"--" + B + b"\r\n\tContent-Type: " + proto.encode() + b"\r\n\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length=%d\r\n" % (len(data) + stub.pad))
        eat(b"--" + B + b"\r\n\tContent-Type: application/octet-stream\r\n")
        eat(struct.pack("<i", len(h)))
        eat(h)
        eat(data + stub.tail)
        out.append(data)
    eat(b"--" + B + b"--\r\n")
    need(pos == len(body), "%d bytes after the end of the frame" % (len(body) - pos), "frame layout")
    return out


def wrap(proto, message, headers, tail, pad):
    from pypsrp.encryption import WinRMEncryption
    stub = Stub(headers, tail, pad)
    kind, body = WinRMEncryption(stub, proto).wrap_message(message)
    parts = read_frame(body, proto, stub)
    need(b"".join(parts) == message, "the parts are not the message", "message changed by framing")
    if proto == CREDSSP and len(message) > K16:
        same(kind, "multipart/x-multi-encrypted", "content type of a split message")
        need(all(len(p) <= K16 for p in parts) and all(parts), "part sizes %r" % [len(p) for p in parts], "part sizes")
    else:
        same(len(parts), 1, "parts of a %d byte message over %s" % (len(message), proto), "needless split")
        same(kind, "multipart/encrypted", "content type")
    return (kind, len(parts), hash(body)), True


def frame(proto, plains, headers, tail, boundary=B, space=b"", end=b"--\r\n", lengths=None):
    out = b""
    b = b"--" + space + boundary
    for k, p in enumerate(plains):
        h = headers[k % len(headers)]
        n = len(p) if lengths is None else lengths[k]
        out += b + b"\r\n\tContent-Type: " + proto.encode() + b"\r\n\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length=%d\r\n" % n
        out += b + b"\r\n\tContent-Type: application/octet-stream\r\n" + struct.pack("<i", len(h)) + h + p + tail
    return out + b + end


def unwrap(proto, plains, headers, tail, boundary=B, space=b"", end=b"--\r\n"):
    from pypsrp.encryption import WinRMEncryption
    stub = Stub(headers, tail, 0, plains)
    body = frame(proto, plains, headers, tail, boundary, space, end)
    try:
        got = WinRMEncryption(stub, proto).unwrap_message(body, boundary.decode())
    except Exception as e:
        raise core.Violation("a reply of parts %r sealed as %r + %r is not opened: %r" % ([p[:60] for p in plains], headers, tail, e), "reply not opened: " + type(e).__name__)
    need(got == b"".join(plains), "opened to %r instead of %r" % (got[:80], b"".join(plains)[:80]), "reply opened to something else")
    same(len(stub.opened), len(plains), "parts opened")
    return (len(got), len(plains), hash(body)), True


def mismatch(plains, tail, lengths):
    from pypsrp.encryption import WinRMEncryption
    stub = Stub((b"HDR",), tail, 0, plains)
    body = frame(PROTOS[0], plains, (b"HDR",), tail, lengths=lengths)
    try:
        got = WinRMEncryption(stub, PROTOS[0]).unwrap_message(body, B.decode())
    except Exception as e:
        return (type(e).__name__,), True
    need(lengths == [len(p) for p in plains], "declared lengths %r for parts of %r were accepted" % (lengths, [len(p) for p in plains]), "length mismatch accepted")
    return (got,), False


def truncated(plain, tail, n):
    from pypsrp.encryption import WinRMEncryption
    stub = Stub((b"HDR",), tail, 0, [plain])
    body = frame(PROTOS[0], [plain], (b"HDR",), tail)[:n]
    try:
        got = WinRMEncryption(stub, PROTOS[0]).unwrap_message(body, B.decode())
    except Exception as e:
        return (type(e).__name__,), True
    need(got == (plain if body else b""), "a reply cut to %d bytes opened to %r" % (n, got), "truncated reply opened to something else")
    return (got,), True


# ---------------------------------------------------------------- over the wire
def soap(data, body):
    import re
    m = re.search(rb"MessageID>([^<]*)<", data).group(1).decode()
    return ('<s:Envelope xmlns:s="http://www.w3.org/2003/05/soap-envelope" xmlns:wsa="http://schemas.xmlsoap.org/ws/2004/08/addressing"><s:Header><wsa:RelatesTo>%s</wsa:RelatesTo></s:Header><s:Body>%s</s:Body></s:Envelope>' % (m, body)).encode()


BOUNDS = ["Encrypted Boundary", "a", "--x--", "B+(x)?", "x=y", "a.b", "'q'", "B:1/2,3", "Z" * 70, "boundary", "Content-Type"]
SPELL = ['multipart/encrypted;protocol="%(p)s";boundary="%(b)s"', 'multipart/encrypted; protocol="%(p)s"; boundary="%(b)s"', 'Multipart/Encrypted;Protocol="%(p)s";Boundary="%(b)s"', 'multipart/encrypted ;boundary="%(b)s";protocol="%(p)s"', 'multipart/x-multi-encrypted;boundary="%(b)s";protocol="%(p)s";charset="x"', 'MULTIPART/X-MULTI-ENCRYPTED;protocol="%(p)s";boundary="%(b)s"', 'multipart/encrypted;protocol="%(p)s";boundary=%(b)s']
MODE = {"negotiate": ("Negotiate", PROTOS[0]), "kerberos": ("Kerberos", PROTOS[1]), "ntlm": ("Negotiate", PROTOS[0]), "credssp": ("CredSSP", PROTOS[2])}


def wire(mode, texts, boundary, spell, cuts, space, end, pad, ident, status=200, length=None):
    from pypsrp.exceptions import WSManFaultError
    from pypsrp.wsman import WSMan
    offer, proto = MODE[mode]
    plan = authnet.Plan()
    plan.pad, plan.ident, plan.legs = pad, ident, 2
    state = {"text": None}
    srv = authnet.AuthServer(None, offers=offer, plan=plan, sealed=True)

    def serve_sealed(plain, to):
        el = ET.fromstring(plain)
        got = "".join(el.itertext())
        need(state["text"] in got, "the server read %r" % got[-40:], "message changed on the way")
        if status == 200:
            return 200, soap(plain, "<x>%s</x>" % state["text"]), None
        return 500, soap(plain, '<s:Fault><s:Code><s:Value>v</s:Value></s:Code><s:Detail><f:WSManFault xmlns:f="http://schemas.microsoft.com/wbem/wsman/1/wsmanfault" Code="77"/></s:Detail></s:Fault>'), None
    srv.inner = serve_sealed
    real = authnet.build_sealed

    def build(ctx, pr, plain, **kw):
        c = sorted({min(len(plain), int(len(plain) * f)) for f in cuts}) or None
        n = None if length is None else len(plain) + length
        body, kind = real(ctx, pr, plain, boundary=boundary, cut=c, space=space, end=end, length=n)
        return body, kind
    srv.install(horizon=60)
    w = WSMan("srv", username="u", password="p", auth=mode, ssl=False)
    res = []
    authnet.build_sealed = build
    real_answer = srv.answer

    def serve(e, act):
        st, out, hdrs = authnet.AuthServer.serve(srv, e, act)
        if hdrs and "multipart" in hdrs.get("Content-Type", ""):
            hdrs["Content-Type"] = spell % {"p": proto, "b": boundary}
        return st, out, hdrs
    srv.serve = serve
    try:
        for t in texts:
            state["text"] = t
            q = ET.Element("q")
            q.text = t
            try:
                r = w.invoke("http://x/Custom", "http://r", q)
                need(length is None, "a reply declaring %+d bytes was accepted" % (length or 0), "length mismatch accepted")
                need(status == 200, "a sealed fault was not raised")
                need("".join(r.itertext()).endswith(t), "the reply reads %r instead of %r" % ("".join(r.itertext())[-60:], t[-60:]), "reply changed")
            except core.Violation:
                raise
            except WSManFaultError as e:
                need(status == 500 and e.code == 77, "raised %r" % e)
            except Exception as e:
                need(length is not None, "a sealed reply (%s, boundary %r, cuts %r, space %r, end %r) was not opened: %r" % (spell, boundary, cuts, space, end, e), "reply not opened: " + type(e).__name__)
                res.append(type(e).__name__)
    finally:
        authnet.build_sealed = real
    need(not srv.errors, "the server rejects: %r" % srv.errors[:2], "server rejects")
    for e in srv.log:
        if e["body"]:
            same(e["proto"], proto, "protocol declared")
            same(e["clen"], str(len(e["body"])), "Content-Length", "content length")
            if proto == CREDSSP and len(e["plain"]) > K16:
                need(e["ctype"].startswith("multipart/x-multi-encrypted;") and all(n <= K16 + pad for n in e["parts"]) and len(e["parts"]) > 1, "parts %r" % e["parts"], "part sizes")
            else:
                same(len(e["parts"]), 1, "parts of a %d byte message" % len(e["plain"]), "needless split")
                need(e["ctype"].startswith("multipart/encrypted;"), "content type %r" % e["ctype"])
    return (mode, boundary, len(srv.log), tuple(res)), True


def cases(tier):
    big = tier == "thorough"
    out = [["wire", m, i] for m in MODE for i in range(4)]
    out += [["wrap", i] for i in range(8)] + [["unwrap", i] for i in range(8)]
    if big:
        out += [["wrap4", i] for i in range(32)] + [["unwrap4", i] for i in range(32)]
    out += [["sizes", p] for p in range(3)] + [["tails"], ["heads"], ["cuts", 0], ["cuts", 1], ["spelling"], ["mismatch"], ["truncated"]]
    return out


def run_case(case, rep):
    big = os.environ.get("VERIF_TIER") == "thorough"
    kind = case[0]

    def one(fn, *args, **kw):
        rep.execute(lambda: fn(*args, **kw), case=case, choices=lambda: repr((args, kw))[:300])
    if kind in ("wrap", "unwrap", "wrap4", "unwrap4"):
        depth = 4 if kind.endswith("4") else 3
        for i, seq in enumerate(s for n in ((depth,) if depth == 4 else range(depth + 1)) for s in itertools.product(TOK, repeat=n)):
            if i % (32 if depth == 4 else 8) != case[1]:
                continue
            data = b"".join(seq)
            p = PROTOS[i % 3]
            if kind.startswith("wrap"):
                one(wrap, p, data, (b"HDR",), (b"", b"--" + B + b"--\r\n")[i % 2], (0, 7)[i // 2 % 2])
            else:
                one(unwrap, p, [data], (b"HDR",), b"")
                if depth == 3 and len(seq) <= 2:
                    for e in (b"\r\n", b"--\r\n"):
                        for sp in (b"", b" "):
                            one(unwrap, p, [data], (data,), b"", B, sp, e)
    elif kind == "sizes":
        sizes = sorted({max(0, k * K16 + d) for k in range(5 if not big else 12) for d in (-2, -1, 0, 1, 2)} | {5, 1000, 100000} | ({65 * K16 + 1, 256 * K16, 300 * K16 + 7} if big or case[1] == 2 else {65 * K16 + 1}))
        p = PROTOS[case[1]]
        for n in sizes:
            msg = bytes(i * i % 251 for i in range(n))
            for hs in ((b"H",), (b"",), (b"x" * 300, b"y")):
                for tail in (b"", b"t" * 29):
                    for pad in (0, 5):
                        one(wrap, p, msg, hs, tail, pad)
                    plains = [msg[i:i + K16] for i in range(0, n, K16)] if p == CREDSSP and n > K16 else [msg]
                    one(unwrap, p, plains, hs, tail)
    elif kind == "tails":
        for n in range(4):
            for seq in itertools.product(SIMPLE, repeat=n):
                t = b"".join(seq)
                if n == 3 and b"octet-stream" in t and b"Length=" in t:
                    continue
                one(unwrap, PROTOS[0], [b"plain"], (b"HDR",), t)
                if n < 3:
                    one(unwrap, PROTOS[0], [b"", b"p2"], (b"HDR", t), t)
    elif kind == "heads":
        for n in range(3 if not big else 4):
            for seq in itertools.product(TOK, repeat=n):
                h = b"".join(seq)
                one(unwrap, PROTOS[1], [b"plain", h], (h, b"", h + h), b"")
                one(wrap, PROTOS[1], b"plain", (h,), h, 0)
    elif kind == "cuts":
        for i, seq in enumerate(itertools.product(TOK, repeat=3)):
            if i % 2 != case[1]:
                continue
            a, b, c = seq
            one(unwrap, CREDSSP, [a + b, c], (b"H1", b"H22"), b"")
            one(unwrap, CREDSSP, [a, b + c], (b"H1",), b"")
            one(unwrap, CREDSSP, [a, b, c], (b"H1", b"", b"H333"), b"")
    elif kind == "spelling":
        for b in BOUNDS:
            bb = b.encode()
            data = [b"", b"x", bb, b"--" + bb, b"--" + bb + b"\r\n", b"--" + bb + b"--\r\n", b"a" + bb.replace(b".", b"z") + b"b", b"--azb--\r\n", b"\r\n"]
            for d in data:
                for sp in (b"", b" "):
                    for e in (b"--\r\n", b"\r\n", b"--"):
                        for t in (b"", b"tail", b"--" + bb + b"--\r\n", b"\r\n", b"-", b" "):
                            one(unwrap, PROTOS[0], [d], (b"HDR",), t, bb, sp, e)
                            one(unwrap, CREDSSP, [d, d], (b"HDR",), t, bb, sp, e)
    elif kind == "mismatch":
        for plains in ([b"plain"], [b""], [b"ab", b"cde"], [b"--" + B + b"--\r\n"], [b"a", b"", b"b" * 50]):
            for tail in (b"", b"-encrypted", b"t" * 40):
                for deltas in itertools.product((-2, -1, 0, 1, 2, 30, 1000), repeat=len(plains)):
                    ls = [len(p) + d for p, d in zip(plains, deltas)]
                    if min(ls) >= 0:
                        one(mismatch, plains, tail, ls)
    elif kind == "truncated":
        for plain in (b"plain", b"", b"--" + B + b"\r\n", b"x" * 20 + b"--" + B + b"--\r\nmore"):
            for tail in (b"", b"tailtail"):
                full = len(frame(PROTOS[0], [plain], (b"HDR",), tail))
                for n in range(full + 1):
                    one(truncated, plain, tail, n)
    elif kind == "wire":
        m, i = case[1:]
        texts = ["plain", "\u00e9\u20ac\U0001F600 --Encrypted Boundary--\n", ("x" * K16) + "\u00e9" * 9000]
        k = 0
        for b in BOUNDS:
            for si, spell in enumerate(SPELL):
                if si == 6 and not all(ch.isalnum() or ch in "-._+'" for ch in b):
                    continue
                for cuts in ((), (0.5,), (0.1, 0.6)):
                    if bool(cuts) != ("x-multi" in spell.lower()):
                        continue
                    for sp in ("", " "):
                        for end in (True, False):
                            k += 1
                            if k % 4 != i:
                                continue
                            one(wire, m, texts if k % 8 == i else texts[:2], b, spell, cuts, sp, end, (0, 16)[k // 4 % 2], bool(k // 8 % 2))
        for d in (-3, -1, 1, 3, 10000):
            one(wire, m, ["plain"], BOUNDS[i], SPELL[0], (), "", True, 0, True, length=d)
        one(wire, m, ["plain"], BOUNDS[i], SPELL[0], (), "", True, 0, False, status=500)
