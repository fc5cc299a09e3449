"""P20: when encryption is required no request body leaves in clear or sealed by anything but the connection's context."""
import itertools
import os

import requests

from mc import authnet, clixml, core, env, server, wire
from mc.core import need, same
from mc.env import W

PROP = "P20"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of the configuration matrix and of failure patterns (every request, every authentication leg, pairs of failures) over a scripted network with a strict sealing endpoint, on the real client"
LEVEL_NOTE = "Complete over TLS x encryption setting x authentication method, and over all single failures at every HTTP request of a session of two pools with a closed connection in between, all pairs within the bound; the security provider is a stand-in behind spnego.client, requests_credssp runs for real on it."
RULE = "one evaluation = one configuration or one session with one failure pattern, every HTTP request of it judged; non-trivial when sealing is required"
ASSUMPTIONS = ["a failed connection is replaced by a new one that must authenticate", "the endpoint refuses what the security context of the connection does not open", "a body the server has not accepted because it asks for authentication again may be sent once more, still sealed, within that exchange"]

AUTHS = ["basic", "certificate", "credssp", "kerberos", "negotiate", "ntlm"]
CAN = {"credssp", "kerberos", "negotiate", "ntlm"}
ENC = ["auto", "always", "never"]
OFFER = {"negotiate": "Negotiate", "ntlm": "Negotiate", "kerberos": "Kerberos", "credssp": "CredSSP", "basic": "Basic", "certificate": "Basic"}
ACTS = ["readtimeout", "conntimeout", "reset", "chunked", "late", "401", "refuse", "500", "redirect", "bad-mic"]
PLAIN_CT = "application/soap+xml;charset=UTF-8"


def build(auth, ssl, enc):
    from pypsrp.wsman import WSMan
    kw = dict(auth=auth, ssl=ssl, username="u", password="p")
    if enc is not None:
        kw["encryption"] = enc
    if auth == "certificate":
        kw.update(certificate_pem="/nonexistent/c.pem", certificate_key_pem="/nonexistent/k.pem")
    return WSMan("srv", **kw)


class Net(authnet.AuthServer):
    """also models redirects and connections closed by the client"""

    def install(self, horizon=400):
        authnet.AuthServer.install(self, horizon)
        srv = self

        def closed(adapter):
            _real_close(adapter)
            srv.drop()
        requests.adapters.HTTPAdapter.close = closed
        return self

    def http(self, adapter, request, kw):
        self.urls = getattr(self, "urls", [])
        self.urls.append(request.url)
        return authnet.AuthServer.http(self, adapter, request, kw)

    def serve(self, e, act):
        if act == "500":
            return 500, b"", {}
        if act == "redirect":
            return 307, b"", {"Location": "http://elsewhere/wsman"}
        if act == "bad-mic":
            return 401, b"", {"WWW-Authenticate": self.offers + " " + "AAAA"}
        if e["plain"] is not None and self.conn is None and "token" not in e and e["auth"] is None:
            return self.challenge()
        return authnet.AuthServer.serve(self, e, act)


_real_close = requests.adapters.HTTPAdapter.close


def net(auth, ssl, required, acts=None, legs=2, final=False, pad=0):
    inner = server.ScriptServer([(wire.OUTPUT, "<S>one</S>"), (wire.PIPE_STATE, clixml.pipeline_state(4))])
    plan = authnet.Plan()
    plan.legs, plan.final, plan.pad, plan.lenient = legs, final, pad, True
    acts = dict(acts or {})
    srv = Net(lambda d, to: inner.answer(d, to), offers=OFFER[auth], plan=plan, sealed=required, decide=lambda s, e: acts.get(len(s.log) - 1, "ok")).install()
    if auth in ("basic", "certificate"):
        srv.conn = "tls"
        srv.drop = lambda: None
    return srv, inner


def session(w, log, strict):
    """two pools and one closed connection, whatever fails"""
    from pypsrp.powershell import PowerShell, RunspacePool

    def step(name, fn):
        try:
            log.append((name, fn()))
        except (core.Violation, core.Horizon):
            raise
        except Exception as e:
            if strict:
                raise core.Violation("%s failed with %r on a healthy network" % (name, e), "healthy session fails: " + name)
            log.append((name, e))
    for rnd in range(3 if strict else 2):
        pool = RunspacePool(w)

        def run():
            ps = PowerShell(pool)
            ps.add_script("SECRETSCRIPT")
            return list(ps.invoke())
        step("open", pool.open)
        step("run", run)
        step("close", pool.close)
        if rnd == (1 if strict else 0):
            step("wsman close", w.close)


def judge(srv, ssl, required):
    done, moved = None, False
    for k, e in enumerate(srv.log):
        body, act = e["body"], e.get("act")
        to_http = srv.urls[k].startswith("http:")
        moved = moved or "elsewhere" in srv.urls[k]
        if body:
            if required:
                need(e["plain"] is not None and not e.get("bad"), "request %d carries a body that the endpoint cannot open: %s %r" % (k, e.get("bad"), body[:60]), "body not sealed")
                need(b"SECRETSCRIPT" not in body and b"Envelope" not in body, "request %d carries clear text" % k, "body in clear")
                need(b"Envelope" in e["plain"], "request %d seals something else than the message" % k, "sealed content")
                need(e["ctype"] is not None and e["ctype"].startswith("multipart/"), "content type of a sealed body is %r" % e["ctype"], "content type")
                if "token" not in e and act != "401" and not moved and not (done is None and e["ctx"] in srv.dropped):
                    need(done is not None, "request %d is sent on a connection that is not authenticated" % k, "not authenticated first")
                    need(e["ctx"] is done, "request %d is sealed by another context than the connection's" % k, "stale context")
            else:
                same(e["ctype"], PLAIN_CT, "content type of a plain request", "plain content type")
                need(b"Envelope" in body, "body %r" % body[:50], "plain body")
                need(not (ssl and to_http), "request %d of a TLS connection is sent without TLS" % k, "TLS dropped by a redirect")
        if act in ("readtimeout", "conntimeout", "reset", "chunked", "401"):
            if act == "401" and done is not None:
                srv.dropped.add(done)
            done = None
            continue
        if act in ("500", "redirect", "bad-mic"):
            continue
        if "token" in e and e["token"][1] == srv.plan.legs and act != "refuse":
            done = srv.contexts[e["token"][0] - 1]
        if act == "late" or (act == "refuse" and "token" in e):
            done = None


def matrix(auth, ssl, enc):
    required = (not ssl and enc != "never") or (ssl and enc == "always")
    refuse = required and auth not in CAN
    W.reset()
    srv = None
    try:
        w = build(auth, ssl, enc)
    except ValueError as e:
        need(refuse, "%s ssl=%s encryption=%s is refused: %r" % (auth, ssl, enc, e), "usable combination refused")
        return ("refused",), required
    need(not refuse, "%s ssl=%s encryption=%s is accepted although it cannot seal" % (auth, ssl, enc), "unsealable combination accepted")
    outs = []
    for legs, final, pad in ((1, False, 0), (2, False, 0), (2, True, 0), (3, False, 5)):
        if auth == "credssp" and (legs, final) != (2, False):
            continue
        srv, inner = net(auth, ssl, required, legs=legs, final=final, pad=pad)
        srv.dropped = set()
        w = build(auth, ssl, enc)
        log = []
        if auth == "certificate" and not ssl:
            session(w, log, False)
            need(all(not e["body"] for e in srv.log) and all(isinstance(v, Exception) for n, v in log if n in ("open", "run")), "certificate authentication without TLS is attempted", "certificate without TLS")
            continue
        session(w, log, True)
        same([v for n, v in log if n == "run"], [["one"]] * 3, "results over %s" % auth)
        judge(srv, ssl, required)
        need(not srv.errors and not inner.errors, "server errors %r %r" % (srv.errors[:2], inner.errors[:2]), "server errors")
        for u in srv.urls:
            need(u.startswith("https:" if ssl else "http:"), "url %s" % u)
        outs.append(len(srv.log))
    return (tuple(outs), required), required


def invalid(auth, ssl, enc):
    W.reset()
    try:
        build(auth, ssl, enc)
    except ValueError:
        return ("refused",), True
    need(False, "auth=%r encryption=%r is accepted" % (auth, enc), "unknown setting accepted")


MODES = {"negotiate": ("negotiate", False, "auto"), "ntlm-tls": ("ntlm", True, "always"), "kerberos": ("kerberos", False, "always"), "credssp": ("credssp", False, None), "tls": ("negotiate", True, "auto"), "tls-basic": ("basic", True, None)}


def failing(mode, acts, legs, final, hits=None):
    auth, ssl, enc = MODES[mode]
    required = mode not in ("tls", "tls-basic")
    srv, inner = net(auth, ssl, required, acts, legs, final)
    srv.dropped = set()
    w = build(auth, ssl, enc)
    log = []
    session(w, log, False)
    if hits is not None:
        hits[0] = max(acts) < len(srv.log)
    judge(srv, ssl, required)
    need(not [e for e in srv.errors if "clear" in e], "a body in clear reached the server", "body in clear")
    hit = [k for k in acts if k < len(srv.log)]
    # once the failures are over the connection works again
    if hit and not any(a in ("redirect",) for a in acts.values()):
        last = [v for n, v in log if n == "run"][-1]
        if max(acts) < srv_round(log, srv) :
            same(last, ["one"], "the session after the failures", "connection unusable after a failure")
    return (tuple(type(v).__name__ if isinstance(v, Exception) else str(v) for n, v in log), len(srv.log)), required


def srv_round(log, srv):
    return len(srv.log) - 9


def incomplete(mode, acts):
    """the endpoint stops the authentication early with success: nothing may be sent in clear"""
    auth, ssl, enc = MODES[mode]
    srv, inner = net(auth, ssl, True, {}, 3)
    srv.dropped = set()
    real = srv.serve

    def serve(e, act):
        if "wait" == act:
            return real(e, act)
        k = len(srv.log) - 1
        if k in acts:
            return 200, b"", {}
        return real(e, act)
    srv.serve = serve
    w = build(auth, ssl, enc)
    log = []
    session(w, log, False)
    for k, e in enumerate(srv.log):
        if e["body"]:
            need(e["plain"] is not None and not e.get("bad"), "request %d carries a body that the endpoint cannot open" % k, "body not sealed")
            need(b"SECRETSCRIPT" not in e["body"] and b"Envelope" not in e["body"], "request %d carries clear text" % k, "body in clear")
    return (len(srv.log), tuple(type(v).__name__ for n, v in log)), True


def cases(tier):
    big = tier == "thorough"
    out = []
    for m in ("negotiate",) + (("credssp", "kerberos", "ntlm-tls", "tls") if big else ()):
        out += [["double", m, i] for i in range(16)]
    out += [["single", m, a] for m in MODES for a in ACTS]
    out += [["matrix", a] for a in AUTHS] + [["invalid"]] + [["incomplete", m] for m in ("negotiate", "kerberos", "credssp", "ntlm-tls")]
    return out


def run_case(case, rep):
    big = os.environ.get("VERIF_TIER") == "thorough"
    kind = case[0]

    def one(fn, *args):
        def go():
            try:
                return fn(*args)
            finally:
                requests.adapters.HTTPAdapter.close = _real_close
        rep.execute(go, case=case, choices=lambda: repr(args))
    if kind == "matrix":
        for ssl in (True, False):
            for enc in ENC + [None]:
                one(matrix, case[1], ssl, "auto" if enc is None else enc)
    elif kind == "invalid":
        for ssl in (True, False):
            for a, e in itertools.product(AUTHS, ("", "Always", "on", None, True, "none")):
                if e is not None:
                    one(invalid, a, ssl, e)
            for a in ("", "NTLM", "digest", "Negotiate"):
                for e in ENC:
                    one(invalid, a, ssl, e)
    elif kind == "single":
        m, a = case[1:]
        variants = ((2, False),) if m in ("credssp", "tls-basic") else ((1, False), (2, True), (3, False)) if big else ((1, False), (2, True))
        for legs, fin in variants:
            for k in range(45):
                hit = [False]
                one(failing, m, {k: a}, legs, fin, hit)
                if not hit[0]:
                    break
    elif kind == "double":
        m = case[1]
        for i, (j, k) in enumerate(itertools.combinations(range(16 if not big else 30), 2)):
            if i % 16 != case[2]:
                continue
            for a, b in itertools.product(("readtimeout", "reset", "late", "401", "refuse") if not big else ACTS[:-2], repeat=2):
                one(failing, m, {j: a, k: b}, 2, False)
    else:
        for k in range(24):
            one(incomplete, case[1], {k})
            for j in range(k):
                if j > 8 and not big:
                    break
                one(incomplete, case[1], {j, k})
