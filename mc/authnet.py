"""A stand-in security provider behind spnego.client and an HTTP endpoint that authenticates connections, strictly reads
sealed bodies and seals replies.  Used by P19-P22 and P29.  The seam is spnego.client (third party), so both the Negotiate
handler of pypsrp and requests_credssp run for real on top of it."""
import base64
import struct

import requests
import spnego

from . import core
from .env import W, response, start

_real_client = spnego.client
IDENT = bytes(range(256))


def table(cid):
    return bytes((b * 7 + 13 + cid * 31) & 0xFF for b in range(256))


_T, _I = {}, {}


def tables(cid):
    if cid not in _T:
        t = table(cid)
        inv = bytearray(256)
        for i, b in enumerate(t):
            inv[b] = i
        _T[cid], _I[cid] = t, bytes(inv)
    return _T[cid], _I[cid]


class Refused(Exception):
    pass


class Plan:
    """how the contexts made by spnego.client behave"""
    legs = 2          # tokens the client produces
    final = False     # the client also consumes a last server token
    pad = 0           # padding added by sealing
    fail_at = None    # raise SpnegoError in that step
    ident = False     # sealed form equals the plain form (so that tests control the sealed bytes)
    header = b"SIG"
    lenient = False   # misuse of a context raises what a provider raises instead of a violation


class Ctx:
    """client context"""

    def __init__(self, world, args, kwargs):
        self.w = world
        self.plan = world.plan
        self.cid = len(world.contexts) + 1
        world.contexts.append(self)
        self.args = args
        self.kwargs = kwargs
        self.n = 0
        self.ins = []
        self.outs = []
        self.complete = False
        self.seq_out = self.seq_in = self.srv_out = self.srv_in = 0

    def step(self, in_token=None, channel_bindings=None):
        if self.complete:
            if self.plan.lenient:
                raise spnego.exceptions.SpnegoError(error_code=spnego.exceptions.ErrorCode.invalid_token, context_msg="already complete")
            raise core.Violation("a token was given to a security context that is already complete")
        if self.n == 0:
            if in_token:
                raise core.Violation("the first step was given a token")
        else:
            self.ins.append(in_token)
        if self.plan.fail_at == self.n:
            raise spnego.exceptions.SpnegoError(error_code=spnego.exceptions.ErrorCode.bad_mic, context_msg="planned")
        self.n += 1
        if self.n <= self.plan.legs:
            out = b"C|%d|%d|" % (self.cid, self.n) + bytes([0, 255, 10, 44, 61])
            self.outs.append(out)
            if self.n == self.plan.legs and not self.plan.final:
                self.complete = True
            return out
        self.complete = True
        return None

    def get_extra_info(self, name, default=None):
        return default

    # --- sealing, as WinRM asks for it
    def wrap_winrm(self, data):
        if not self.complete:
            if self.plan.lenient:
                raise spnego.exceptions.SpnegoError(error_code=spnego.exceptions.ErrorCode.no_context, context_msg="not established")
            raise core.Violation("a message is sealed before the security context is complete")
        self.seq_out += 1
        return seal(self, data, b"C", self.seq_out)

    def unwrap_winrm(self, header, data):
        self.seq_in += 1
        return unseal(self, header, data, b"S", self.seq_in)


def seal(ctx, data, who, seq):
    padded = data + b"\0" * ctx.plan.pad
    cipher = padded if ctx.plan.ident else padded.translate(tables(ctx.cid)[0])
    return ctx.plan.header + who + struct.pack("<III", ctx.cid, seq, len(cipher)), cipher, ctx.plan.pad


def unseal(ctx, header, data, who, seq):
    h = ctx.plan.header
    if len(header) != len(h) + 13 or header[:len(h) + 1] != h + who:
        raise Refused("signature %r" % header[:40])
    cid, s, n = struct.unpack("<III", header[len(h) + 1:])
    if cid != ctx.cid:
        raise Refused("sealed by context %d, opened with %d" % (cid, ctx.cid))
    if s != seq:
        raise Refused("sequence %d, expected %d" % (s, seq))
    if n != len(data):
        raise Refused("sealed length %d, got %d" % (n, len(data)))
    plain = data if ctx.plan.ident else data.translate(tables(ctx.cid)[1])
    return plain[:len(plain) - ctx.plan.pad] if ctx.plan.pad and who == b"C" else plain


class BadSeal(Exception):
    pass


PROTO = {"CredSSP": "application/HTTP-CredSSP-session-encrypted", "Kerberos": "application/HTTP-Kerberos-session-encrypted"}


def parse_sealed(ctype, body, hdr_len=None):
    """The strict reader of MS-WSMV 2.2.9.1.  Returns (protocol, [(declared length, header, cipher)])."""
    parts = [p.strip() for p in ctype.split(";")]
    kind = parts[0].lower()
    if kind not in ("multipart/encrypted", "multipart/x-multi-encrypted"):
        raise BadSeal("content type %r" % ctype)
    par = {}
    for p in parts[1:]:
        k, _, v = p.partition("=")
        par[k.lower()] = v[1:-1] if v[:1] == '"' and v[-1:] == '"' else v
    if set(par) != {"protocol", "boundary"}:
        raise BadSeal("content type parameters %r" % ctype)
    b = b"--" + par["boundary"].encode()
    out = []
    pos = 0

    def eat(s):
        nonlocal pos
        if body[pos:pos + len(s)] != s:
            raise BadSeal("expected %r at %d, got %r" % (s, pos, body[pos:pos + len(s)]))
        pos += len(s)

    def line():
        nonlocal pos
        e = body.index(b"\r\n", pos)
        s = body[pos:e]
        pos = e + 2
        return s
    while True:
        eat(b + b"\r\n")
        eat(b"\tContent-Type: " + par["protocol"].encode() + b"\r\n")
        eat(b"\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length=")
        n = int(line())
        eat(b + b"\r\n")
        eat(b"\tContent-Type: application/octet-stream\r\n")
        hl, = struct.unpack("<i", body[pos:pos + 4])
        if not 13 <= hl <= 200:
            raise BadSeal("signature length %d" % hl)
        h = body[pos + 4:pos + 4 + hl]
        cl, = struct.unpack("<I", h[-4:])
        pos += 4 + hl
        c = body[pos:pos + cl]
        if len(c) != cl:
            raise BadSeal("sealed data cut short")
        pos += cl
        out.append((n, h, c))
        if body[pos:] == b + b"--\r\n":
            break
    if kind == "multipart/encrypted" and len(out) != 1:
        raise BadSeal("several parts in multipart/encrypted")
    return par["protocol"], out


def build_sealed(ctx, proto, plain, boundary="Encrypted Boundary", cut=None, space="", end=True, length=None):
    """A sealed reply of one or more parts."""
    pieces = [plain] if cut is None else [plain[a:b] for a, b in zip([0] + cut, cut + [len(plain)])]
    b = b"--" + space.encode() + boundary.encode()
    out = b""
    for p in pieces:
        ctx.srv_out += 1
        h, c, _ = seal(ctx, p, b"S", ctx.srv_out) if not ctx.plan.pad else seal_nopad(ctx, p, ctx.srv_out)
        out += b + b"\r\n\tContent-Type: " + proto.encode() + b"\r\n\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length=%d\r\n" % (len(p) if length is None else length)
        out += b + b"\r\n\tContent-Type: application/octet-stream\r\n" + struct.pack("<i", len(h)) + h + c
    return out + (b + b"--\r\n" if end else b + b"\r\n"), "multipart/encrypted" if cut is None else "multipart/x-multi-encrypted"


def seal_nopad(ctx, p, seq):
    cipher = p if ctx.plan.ident else p.translate(tables(ctx.cid)[0])
    return ctx.plan.header + b"S" + struct.pack("<III", ctx.cid, seq, len(cipher)), cipher, 0


class AuthServer:
    """authenticates the (single) connection, opens sealed bodies, hands plain SOAP to inner(data, timeout) -> (status, body, headers)"""

    def __init__(self, inner, offers="Negotiate", plan=None, sealed=True, decide=None):
        self.inner = inner
        self.offers = offers
        self.plan = plan or Plan()
        self.contexts = []
        self.sealed = sealed
        self.decide = decide or (lambda srv, req: "ok")
        self.conn = None          # authenticated context of the connection
        self.leg = 0
        self.cur = None
        self.log = []             # one dict per HTTP request
        self.errors = []
        self.replies = {}

    def install(self, horizon=400):
        start(self.http, horizon=horizon)
        spnego.client = lambda *a, **k: Ctx(self, a, k)
        return self

    def drop(self):
        self.conn, self.leg, self.cur = None, 0, None

    def http(self, adapter, request, kw):
        body = request.body or b""
        if isinstance(body, str):
            body = body.encode()
        auth = request.headers.get("Authorization")
        if isinstance(auth, bytes):
            auth = auth.decode()
        e = {"body": body, "auth": auth, "ctype": request.headers.get("Content-Type"), "clen": request.headers.get("Content-Length"), "timeout": kw.get("timeout"), "plain": None, "ctx": None, "request": request, "kw": kw}
        self.log.append(e)
        if "multipart/" in (e["ctype"] or ""):
            self.open(e)
        act = self.decide(self, e)
        e["act"] = act
        if act == "readtimeout":
            self.drop()
            raise requests.ReadTimeout("planned", request=request)
        if act == "conntimeout":
            self.drop()
            raise requests.ConnectTimeout("planned", request=request)
        if act == "reset":
            self.drop()
            raise requests.ConnectionError("planned", request=request)
        if act == "chunked":
            self.drop()
            raise requests.exceptions.ChunkedEncodingError("planned", request=request)
        st, data, headers = self.serve(e, act)
        if act == "late":
            self.drop()
            raise requests.ReadTimeout("planned, after the server answered", request=request)
        r = response(adapter, request, st, data, headers)
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        return r

    def challenge(self, tok=None, scheme=None):
        return 401, b"", {"WWW-Authenticate": self.offers if tok is None else "%s %s" % (scheme, base64.b64encode(tok).decode())}

    def serve(self, e, act):
        if act == "401":
            self.drop()
            return self.challenge()
        auth = e["auth"]
        extra = {}
        if auth and not auth.startswith(("Basic", "http:")):
            scheme, _, tok = auth.partition(" ")
            tok = base64.b64decode(tok)
            if scheme.lower() not in self.offers.lower():
                self.errors.append("scheme %s was not offered" % scheme)
            try:
                c, cid, leg, _ = tok.split(b"|", 3)
                cid, leg = int(cid), int(leg)
            except ValueError:
                self.errors.append("token %r" % tok)
                return self.challenge()
            ctx = self.contexts[cid - 1]
            e["token"] = (cid, leg)
            if leg == 1:
                self.cur, self.leg = ctx, 0
            if self.cur is not ctx or leg != self.leg + 1:
                self.errors.append("token %d of context %d out of order" % (leg, cid))
                return self.challenge()
            self.leg = leg
            if act == "refuse":
                self.drop()
                return self.challenge()
            if leg < self.plan.legs:
                return self.challenge(b"S|%d|%d|" % (cid, leg), scheme)
            self.conn = ctx
            if self.plan.final:
                extra = {"WWW-Authenticate": "%s %s" % (scheme, base64.b64encode(b"S|%d|%d|" % (cid, leg)).decode())}
            e["scheme"] = scheme
            self.scheme = scheme
        elif auth is None and self.conn is None:
            return self.challenge()
        if not e["body"]:
            return 200, b"", extra
        if e.get("bad"):
            self.errors.append(e["bad"])
            return 400, b"", extra
        if e["plain"] is not None:
            if e["ctx"] is not self.conn:
                return 400, b"", extra
            # the content must not have been accepted in a security context other than the connection's
            st, out, hdrs = self.answer(e["plain"], e)
            if out:
                proto = parse_ct(e["ctype"])["protocol"]
                out, kind = build_sealed(self.conn, proto, out)
                hdrs = {"Content-Type": '%s;protocol="%s";boundary="Encrypted Boundary"' % (kind, proto)}
            return st, out, dict(hdrs or {}, **extra)
        if self.sealed:
            self.errors.append("a body in clear reached the server")
        st, out, hdrs = self.answer(e["body"], e)
        return st, out, dict(hdrs or {"Content-Type": "application/soap+xml;charset=UTF-8"}, **extra)

    def answer(self, data, e):
        """a request repeated with the same message id gets the same reply"""
        key = mid(data)
        if key not in self.replies:
            self.replies[key] = self.inner(data, e["timeout"])
        return self.replies[key]

    def open(self, e):
        try:
            proto, parts = parse_sealed(e["ctype"], e["body"])
        except (BadSeal, ValueError, struct.error) as x:
            e["bad"] = "sealed body malformed: %s" % x
            return
        plain = b""
        for n, h, c in parts:
            cid = struct.unpack("<I", h[-12:-8])[0]
            if not 1 <= cid <= len(self.contexts):
                e["bad"] = "sealed by an unknown context"
                return
            ctx = self.contexts[cid - 1]
            e["ctx"] = ctx
            seq = struct.unpack("<I", h[-8:-4])[0]
            try:
                p = unseal(ctx, h, c, b"C", seq)
            except Refused as x:
                e["bad"] = "sealed body does not open: %s" % x
                return
            e.setdefault("seqs", []).append(seq)
            if n != len(p) + ctx.plan.pad:
                e["bad"] = "declared length %d, message has %d and padding %d" % (n, len(p), ctx.plan.pad)
                return
            plain += p
        e["plain"] = plain
        e["proto"] = proto
        e["parts"] = [n for n, _, _ in parts]


def parse_ct(ct):
    out = {}
    for p in ct.split(";")[1:]:
        k, _, v = p.strip().partition("=")
        out[k] = v.strip('"')
    return out


def mid(data):
    i = data.find(b"MessageID>")
    return data[i:i + 60] if i >= 0 else data


def uninstall():
    spnego.client = _real_client
