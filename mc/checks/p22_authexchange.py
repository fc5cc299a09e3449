"""P22: authentication exchanges every token in order and stops correctly."""
import base64
import datetime
import io
import itertools
import os
import re
import socket
import ssl as ssllib
import tempfile
import threading
import warnings

import requests
import spnego
from requests.packages.urllib3.response import HTTPResponse

from mc import authnet, core, env
from mc.core import need, same
from mc.env import W

PROP = "P22"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of server reply scripts, offers and security context lengths against a reference exchange, plus all option combinations and certificates, on the real authentication handler with a stand-in security provider"
LEVEL_NOTE = "Complete over all scripts of up to four (thorough: five) replies from 8 kinds for contexts of one to four legs, all offer headers of up to two schemes in both orders, and all 16 option subsets for each provider; three exchanges run over a real TLS socket on the loopback."
RULE = "one evaluation = one exchange (initial request, challenge, legs, outcome); non-trivial when a challenge was answered"
ASSUMPTIONS = ["a security context produces one token per leg and refuses tokens once complete", "one challenge per request: what the server answers to the last leg is final"]

SOAP = '<s:Envelope xmlns:s="http://www.w3.org/2003/05/soap-envelope" xmlns:wsa="http://schemas.xmlsoap.org/ws/2004/08/addressing"><s:Header><wsa:RelatesTo>%s</wsa:RelatesTo></s:Header><s:Body><x>final %d</x></s:Body></s:Envelope>'
KINDS = {"T": (401, "tok"), "B": (401, "bare"), "N": (401, None), "O": (200, None), "K": (200, "tok"), "F": (500, None), "X": (401, "listed"), "L": (401, "other")}


class Worldlet:
    def __init__(self, plan):
        self.plan = plan
        self.contexts = []


def tok(k):
    return b"S|tok|%d|" % k + bytes([0, 251, 255, 62, 63])


def header(kind, scheme, k):
    b = base64.b64encode(tok(k)).decode()
    return {"tok": "%s %s" % (scheme, b), "bare": scheme, None: None, "listed": "Basic realm=\"WSMAN\", %s %s" % (scheme, b), "other": "%s, %s %s" % ("NTLM" if scheme != "NTLM" else "Kerberos", scheme, b)}[kind]


def client(w_kw, plan, net):
    from pypsrp.wsman import WSMan
    world = Worldlet(plan)
    env.start(net, horizon=60)
    spnego.client = lambda *a, **k: authnet.Ctx(world, a, k)
    w = WSMan("srv.example", username="user@REALM", password="pw", **w_kw)
    return w, world


def call(w):
    try:
        return w.invoke("http://x/Custom", "http://r", None), None
    except (core.Violation, core.Horizon):
        raise
    except Exception as e:
        return None, e


def expected_scheme(provider, offers):
    low = [o.lower() for o in offers]
    order = {"negotiate": ["negotiate", "kerberos", "ntlm"], "kerberos": ["negotiate", "kerberos"], "ntlm": ["negotiate", "ntlm"]}[provider]
    for s in order:
        if s in low:
            return {"negotiate": "Negotiate", "kerberos": "Kerberos", "ntlm": "NTLM"}[s]
    return None


def exchange(provider, offer, legs, final, script, ssl=True):
    """the challenge is followed by the scripted replies, the last one repeated"""
    log = []
    plan = authnet.Plan()
    plan.legs, plan.final = legs, final
    scheme_box = [None]

    def net(adapter, request, kw):
        k = len(log)
        mid = re.search(rb"MessageID>([^<]*)<", request.body or b"") if request.body else None
        log.append({"auth": request.headers.get("Authorization"), "body": request.body, "kw": kw, "hdrs": {a: b for a, b in request.headers.items() if a.lower() != "authorization"}, "adapter": adapter})
        if k == 0:
            r = env.response(adapter, request, 401, b"", {"WWW-Authenticate": offer})
        else:
            st, hk = KINDS[script[min(k - 1, len(script) - 1)]]
            h = header(hk, expected_scheme(provider, re.findall(r"(?:^|, )(\w+)", offer)) or "Negotiate", k)
            body = (SOAP % (mid.group(1).decode() if mid else "", k)).encode() if st == 200 else b"failed %d" % k if st == 500 else b""
            hd = {"Content-Type": "application/soap+xml;charset=UTF-8"}
            if h:
                hd["WWW-Authenticate"] = h
            r = env.response(adapter, request, st, body, hd)
        log[-1]["raw"] = r.raw
        return r
    kw = dict(auth=provider, ssl=ssl)
    if not ssl:
        kw["encryption"] = "never"
    w, world = client(kw, plan, net)
    got, err = call(w)
    offers = re.findall(r"(?:^|, )(\w+)", re.sub(r'"[^"]*"', "", offer))
    scheme = expected_scheme(provider, offers)
    if scheme is None:
        need(err is not None and len(log) == 1, "offer %r for provider %s was answered (%d requests, %r)" % (offer, provider, len(log), err), "unusable scheme accepted")
        need(not [c for c in world.contexts if c.outs], "a token was made for an unusable offer")
        return ("refused", type(err).__name__), False
    # reference exchange
    sends, feeds, k, complete, last = 0, [], 0, False, None
    while True:
        sends += 1
        k += 1
        complete = sends == legs and not final
        last = script[min(k - 1, len(script) - 1)]
        st, hk = KINDS[last]
        if complete or hk in (None, "bare"):
            break
        feeds.append(tok(k))
        if sends == legs:
            complete = True   # the last server token completes it
            break
    same(len(world.contexts), 1, "security contexts made")
    c = world.contexts[0]
    same(c.kwargs.get("protocol"), {"Negotiate": provider, "Kerberos": "kerberos", "NTLM": "ntlm"}[scheme], "protocol asked for", "protocol")
    want = [("%s %s" % (scheme, base64.b64encode(b"C|1|%d|" % (i + 1) + bytes([0, 255, 10, 44, 61])).decode())) for i in range(sends)]
    gotauth = [(a["auth"].decode() if isinstance(a["auth"], bytes) else a["auth"]) for a in log]
    same(gotauth, [None] + want, "Authorization headers with offer %r and replies %s" % (offer, script), "tokens sent")
    same(c.ins, feeds, "tokens given to the context (replies %s)" % script, "tokens fed back")
    for e in log[1:]:
        same(e["body"], log[0]["body"], "body of a leg")
        same(e["kw"], log[0]["kw"], "transport settings of a leg", "transport settings of a leg")
        same(e["hdrs"], log[0]["hdrs"], "headers of a leg", "headers of a leg")
        need(e["adapter"] is log[0]["adapter"], "another adapter carries a leg")
    for e in log[:-1]:
        need(getattr(e["raw"], "released", True), "the connection of a leg is not released before the next one", "connection not released")
    st = KINDS[last][0]
    if st == 200:
        need(err is None and "".join(got.itertext()).endswith("final %d" % k), "the final reply is not what the caller got: %r" % err, "final reply lost")
    elif st == 401:
        need(type(err).__name__ == "AuthenticationError", "refusal surfaced as %r" % err, "refusal")
    else:
        need(type(err).__name__ == "WinRMTransportError" and err.code == st and err.response_text == "failed %d" % k, "failure surfaced as %r" % err, "final reply lost")
    # afterwards: a second challenge starts a new exchange with a fresh context
    n0 = len(log)
    log2 = log

    def again(adapter, request, kw):
        j = len(log) - n0
        log.append({"auth": request.headers.get("Authorization")})
        mid = re.search(rb"MessageID>([^<]*)<", request.body).group(1).decode()
        if j == 0:
            return env.response(adapter, request, 401, b"", {"WWW-Authenticate": offer})
        if j < legs:
            return env.response(adapter, request, 401, b"", {"WWW-Authenticate": header("tok", scheme, j)})
        return env.response(adapter, request, 200, (SOAP % (mid, j)).encode(), {"WWW-Authenticate": header("tok", scheme, j)} if final else {})
    W.net = again
    if len(log) + legs < 40:
        got, err = call(w)
        need(err is None, "a later challenge is not answered: %r" % err, "second exchange")
        same(len(world.contexts), 2, "security contexts after two challenges")
        same([(a["auth"].decode() if isinstance(a["auth"], bytes) else a["auth"]) for a in log[n0:]], [None] + [("%s %s" % (scheme, base64.b64encode(b"C|2|%d|" % (i + 1) + bytes([0, 255, 10, 44, 61])).decode())) for i in range(legs)], "tokens of the second exchange", "tokens of the second exchange")
    return (scheme, sends, tuple(map(len, feeds)), type(err).__name__, last), True


# ---------------------------------------------------------------- options
def options(provider, cbt, service, delegate, override, sealed, ssl, creds, server="srv.example"):
    from pypsrp.wsman import WSMan
    plan = authnet.Plan()
    plan.lenient = True
    world = Worldlet(plan)
    log = []

    def net(adapter, request, kw):
        log.append(request)
        if len(log) == 1:
            r = env.response(adapter, request, 401, b"", {"WWW-Authenticate": "Negotiate"})
            r.raw = raw_for(cert("sha256")) if ssl else HTTPResponse(io.BytesIO(b""), preload_content=False)
            return r
        return env.response(adapter, request, 401, b"", {})
    env.start(net, horizon=30)
    spnego.client = lambda *a, **k: authnet.Ctx(world, a, k)
    kw = {}
    for name, v in (("negotiate_send_cbt", cbt), ("negotiate_service", service), ("negotiate_delegate", delegate), ("negotiate_hostname_override", override)):
        if v is not None:
            kw[name] = v
    w = WSMan(server, auth=provider, ssl=ssl, username=creds[0], password=creds[1], encryption={None: "auto", True: "always", False: "never"}[sealed], **kw)
    got, err = call(w)
    need(type(err).__name__ == "AuthenticationError", "refusal surfaced as %r" % err, "refusal")
    same(len(world.contexts), 1, "contexts")
    c = world.contexts[0]
    names = ("username", "password", "hostname", "service", "channel_bindings", "context_req", "protocol", "options")
    a = dict(zip(names, c.args))
    a.update(c.kwargs)
    same(a.get("username"), creds[0], "user name given to the provider", "credentials")
    same(a.get("password"), creds[1], "password given to the provider", "credentials")
    same(a.get("hostname"), override or re.sub(r"[\[\]]", "", server), "target host name", "target name")
    same(a.get("service"), service or "host", "target service", "target name")
    same(a.get("protocol"), provider, "protocol")
    seals = sealed is True or (sealed is None and not ssl)
    same(bool(spnego.NegotiateOptions(int(a.get("options") or 0)) & spnego.NegotiateOptions.wrapping_winrm), seals, "sealing asked of the provider", "sealing option")
    want = spnego.ContextReq.default | (spnego.ContextReq.delegate if delegate else spnego.ContextReq.none)
    same(int(a.get("context_req", spnego.ContextReq.default)), int(want), "context flags", "delegation")
    cb = a.get("channel_bindings")
    if ssl and cbt is not False:
        need(cb is not None, "no channel binding on a TLS connection", "channel binding missing")
        same(cb.application_data, app_data("sha256"), "channel binding", "channel binding")
    else:
        need(cb is None, "a channel binding is sent although %s" % ("switched off" if ssl else "there is no TLS"), "channel binding not asked for")
    return (provider, cbt, service, delegate, override, sealed, ssl), True


_CERTS = {}


def cert(alg):
    """(der, hash name of the binding); generated once per process with the throwaway key"""
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import ec, ed25519
    from cryptography.x509.oid import NameOID
    if alg in _CERTS:
        return _CERTS[alg]
    key = env.test_keys()[0]
    h = {"sha256": hashes.SHA256, "sha384": hashes.SHA384, "sha512": hashes.SHA512, "sha224": hashes.SHA224, "sha3-256": hashes.SHA3_256, "ec-sha256": hashes.SHA256, "ec-sha384": hashes.SHA384, "ec-sha512": hashes.SHA512}.get(alg)
    h = h() if h else None
    if alg.startswith("ec-"):
        key = ec.generate_private_key(ec.SECP256R1())
    if alg == "ed25519":
        key = ed25519.Ed25519PrivateKey.generate()
    name = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, "localhost")])
    t = datetime.datetime(2020, 1, 1)
    c = x509.CertificateBuilder().subject_name(name).issuer_name(name).public_key(key.public_key()).serial_number(7).not_valid_before(t).not_valid_after(datetime.datetime(2040, 1, 1)).sign(key, h)
    der = c.public_bytes(serialization.Encoding.DER)
    if alg in ("md5", "sha1"):
        raise ValueError
    _CERTS[alg] = der
    return der


def app_data(alg, der=None):
    import hashlib
    name = {"sha256": "sha256", "sha384": "sha384", "sha512": "sha512", "sha224": "sha224", "sha3-256": "sha3_256", "ed25519": "sha256"}[alg.replace("ec-", "")]
    return b"tls-server-end-point:" + hashlib.new(name, der or cert(alg)).digest()


# self-signed certificates whose signature algorithm is SHA-1 or MD5: the algorithm identifier of a SHA-256 certificate is
# rewritten (the signature itself is never verified for the binding)
def relabel(der, alg):
    sha256 = bytes.fromhex("06092a864886f70d01010b")
    other = {"sha1": bytes.fromhex("06092a864886f70d010105"), "md5": bytes.fromhex("06092a864886f70d010104")}[alg]
    assert der.count(sha256) == 2
    return der.replace(sha256, other)


class Sock:
    def __init__(self, der):
        self.der = der

    def getpeercert(self, binary_form=False):
        assert binary_form
        return self.der


class Plainsock:
    pass


def raw_for(der):
    class O:
        pass
    r = HTTPResponse(io.BytesIO(b""), preload_content=False)
    fp, raw = O(), O()
    raw._sock = Sock(der) if der else Plainsock()
    fp.raw = raw
    o = O()
    o.fp = fp
    o.read = lambda *a: b""
    o.close = lambda: None
    o.closed = True
    o.isclosed = lambda: True
    r._fp = o
    return r


def binding(alg):
    from pypsrp.wsman import WSMan
    if alg in ("sha1", "md5"):
        der = relabel(cert("sha256"), alg)
        want = app_data("sha256", der)
    elif alg is None:
        der, want = None, None
    else:
        der = cert(alg)
        want = app_data(alg)
    plan = authnet.Plan()
    plan.lenient = True
    world = Worldlet(plan)
    log = []

    def net(adapter, request, kw):
        log.append(request)
        r = env.response(adapter, request, 401, b"", {"WWW-Authenticate": "Negotiate"} if len(log) == 1 else {})
        if len(log) == 1:
            r.raw = raw_for(der)
        return r
    env.start(net, horizon=30)
    spnego.client = lambda *a, **k: authnet.Ctx(world, a, k)
    call(WSMan("srv", auth="negotiate", username="u", password="p"))
    need(world.contexts, "no context made for a %s certificate" % alg, "binding failed")
    cb = world.contexts[0].kwargs.get("channel_bindings")
    same(cb and cb.application_data, want, "channel binding for a %s certificate" % alg, "channel binding")
    return (alg, want), True


def real_tls(alg, legs):
    """the same over a real TLS socket on the loopback"""
    from cryptography import x509
    from cryptography.hazmat.primitives import serialization
    from pypsrp.wsman import WSMan
    d = tempfile.mkdtemp()
    key = env.test_keys()[0]
    der = cert(alg)
    pem = os.path.join(d, "c.pem")
    with open(pem, "wb") as f:
        f.write(key.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.NoEncryption()))
        f.write(x509.load_der_x509_certificate(der).public_bytes(serialization.Encoding.PEM))
    ctx = ssllib.SSLContext(ssllib.PROTOCOL_TLS_SERVER)
    ctx.load_cert_chain(pem)
    ls = socket.socket()
    ls.bind(("127.0.0.1", 0))
    ls.listen(5)
    ls.settimeout(20)
    seen, conns = [], []

    def serve():
        try:
            while True:
                s, _ = ls.accept()
                s.settimeout(20)
                conns.append(s)
                s = ctx.wrap_socket(s, server_side=True)
                f = s.makefile("rwb")
                while True:
                    line = f.readline()
                    if not line:
                        break
                    h = {}
                    while True:
                        x = f.readline().strip()
                        if not x:
                            break
                        a, _, b = x.decode().partition(":")
                        h[a.lower()] = b.strip()
                    body = f.read(int(h.get("content-length", 0)))
                    auth = h.get("authorization")
                    seen.append(auth)
                    n = len([a for a in seen if a])
                    out = b""
                    st, www = "401 Unauthorized", None
                    if not auth:
                        www = "Negotiate"
                    elif n < legs:
                        www = "Negotiate " + base64.b64encode(tok(n)).decode()
                    else:
                        st = "200 OK"
                        m = re.search(rb"MessageID>([^<]*)<", body).group(1).decode()
                        out = (SOAP % (m, n)).encode()
                    f.write(("HTTP/1.1 %s\r\nContent-Type: application/soap+xml;charset=UTF-8\r\nContent-Length: %d\r\n%s\r\n" % (st, len(out), "WWW-Authenticate: %s\r\n" % www if www else "")).encode() + out)
                    f.flush()
        except OSError:
            pass
    t = threading.Thread(target=serve, daemon=True)
    t.start()
    plan = authnet.Plan()
    plan.legs = legs
    world = Worldlet(plan)
    env.W.reset()
    env.W.net = None
    spnego.client = lambda *a, **k: authnet.Ctx(world, a, k)
    w = WSMan("127.0.0.1", port=ls.getsockname()[1], auth="negotiate", username="u", password="p", cert_validation=False)
    try:
        got, err = call(w)
        need(err is None, "exchange over TLS failed: %r" % err, "exchange over TLS")
        same(len(seen), legs + 1, "requests")
        same(len(conns), 1, "connections used by one exchange", "connections used by one exchange")
        cb = world.contexts[0].kwargs.get("channel_bindings")
        same(cb and cb.application_data, app_data(alg), "channel binding of the real certificate", "channel binding")
    finally:
        w.close()
        ls.close()
        for c in conns:
            try:
                c.close()
            except OSError:
                pass
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    return (alg, legs), True


def failing_step(provider, legs, at, ssl):
    """the provider fails in one of its steps: an error, no further token, and a later call starts over"""
    plan = authnet.Plan()
    plan.legs, plan.final, plan.fail_at = legs, True, at
    log = []

    def net(adapter, request, kw):
        k = len(log)
        log.append(request.headers.get("Authorization"))
        return env.response(adapter, request, 401, b"", {"WWW-Authenticate": "Negotiate" if not log[-1] else header("tok", "Negotiate", k)})
    w, world = client(dict(auth=provider, ssl=ssl), plan, net)
    got, err = call(w)
    need(err is not None, "a failing security context goes unnoticed", "provider failure swallowed")
    same(len(log), at + 1, "requests before the failure")
    n = len(log)
    plan.fail_at = None
    sent = []

    def net2(adapter, request, kw):
        sent.append(request.headers.get("Authorization"))
        st = 401
        return env.response(adapter, request, 401, b"", {"WWW-Authenticate": "Negotiate" if not sent[-1] else header("tok", "Negotiate", len(sent))})
    W.net = net2
    got, err = call(w)
    need(err is not None and sent[0] is None and sent[1].endswith(base64.b64encode(b"C|2|1|" + bytes([0, 255, 10, 44, 61]))), "the next call does not start over: %r" % (sent[:2],), "no new exchange after a failure")
    return (provider, legs, at), True


OFFERS = ["Negotiate", "Kerberos", "NTLM", "negotiate", "NEGOTIATE", "Basic realm=\"WSMAN\"", "CredSSP", "Basic realm=\"Negotiate\"", "X-Negotiate", "Digest realm=\"a, NTLM\"", ""]


def cases(tier):
    big = tier == "thorough"
    out = [["script", p, legs] for p in ("negotiate", "kerberos", "ntlm") for legs in (1, 2, 3, 4)]
    out += [["longer", p] for p in ("negotiate", "kerberos", "ntlm")]
    return out + [["offers", p] for p in ("negotiate", "kerberos", "ntlm")] + [["options", p] for p in ("negotiate", "kerberos", "ntlm")] + [["certs"], ["tls"], ["steps"]]


def run_case(case, rep):
    big = os.environ.get("VERIF_TIER") == "thorough"
    kind = case[0]

    def one(fn, *args):
        def go():
            try:
                return fn(*args)
            finally:
                authnet.uninstall()
        rep.execute(go, case=case, choices=lambda: repr(args))
    if kind == "script":
        p, legs = case[1:]
        depth = legs + (1 if not big else 2)
        for final in (False, True):
            for n in range(1, min(depth, 4 if not big else 5) + 1):
                for s in itertools.product(sorted(KINDS), repeat=n):
                    # replies after a stop are never reached
                    if any(KINDS[x][1] in (None, "bare") for x in s[:-1]):
                        continue
                    if big or n < 4 or len(set(s[:-1])) <= 2:
                        one(exchange, p, "Negotiate", legs, final, "".join(s), (len(s) + legs) % 2 == 0)
    elif kind == "longer":
        p = case[1]
        for legs in range(5, 25 if big else 13):
            for final in (False, True):
                for n in sorted({1, 4, legs - 2, legs - 1, legs}):
                    for last in sorted(KINDS):
                        one(exchange, p, "Negotiate", legs, final, "T" * (n - 1) + last, bool((n + legs) % 2))
    elif kind == "offers":
        p = case[1]
        for a in OFFERS:
            one(exchange, p, a, 2, False, "TO")
        for a, b in itertools.permutations(OFFERS[:-1], 2):
            for s, legs in (("TO", 2), ("XO", 2), ("LO", 2), ("N", 2), ("O", 1)):
                one(exchange, p, a + ", " + b, legs, False, s)
        if big:
            for abc in itertools.permutations(OFFERS[:-1], 3):
                one(exchange, p, ", ".join(abc), 2, True, "TK")
    elif kind == "options":
        for cbt in (None, True, False):
            for service in (None, "HTTP"):
                for delegate in (None, True, False):
                    for override in (None, "other.name"):
                        for sealed in (None, True, False):
                            for ssl in (True, False):
                                for creds in (("u", "p"), (None, None), ("dom\\u", "p\u00e9"))[: 3 if sealed is None else 1]:
                                    one(options, case[1], cbt, service, delegate, override, sealed, ssl, creds)
        for server in ("10.0.0.1", "SRV", "fe80::1"):
            one(options, case[1], None, None, None, None, None, True, ("u", "p"), server) if server != "SRV" else None
    elif kind == "certs":
        for a in ("sha256", "sha384", "sha512", "sha224", "sha3-256", "ec-sha256", "ec-sha384", "ec-sha512", "ed25519", "sha1", "md5", None):
            one(binding, a)
    elif kind == "tls":
        for a, legs in (("sha256", 1), ("sha384", 2), ("sha512", 3)):
            one(real_tls, a, legs)
    else:
        for p in ("negotiate", "kerberos", "ntlm"):
            for legs in (1, 2, 3):
                for at in range(legs + 1):
                    for ssl in (True, False):
                        one(failing_step, p, legs, at, ssl)
