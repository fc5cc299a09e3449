"""P19: only a receive is repeated after a network timeout, boundedly, unchanged, and authenticating afresh when sealed."""
import itertools
import os
import re
import xml.etree.ElementTree as ET

import requests

from mc import authnet, core, drive, env, server, wire
from mc.core import need, same
from mc.env import W

PROP = "P19"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of failure patterns (two kinds of timeout, other network errors, faults, failure statuses, late timeouts after the server processed the request) over the whole retry budget, at every request of a session and every authentication leg, on the real client over a scripted network"
LEVEL_NOTE = "Complete over all patterns of timeouts up to one past the budget followed by each terminal outcome for receive and for generic requests with budgets 0-6, and all single and double failures (kind x position) in plain and sealed sessions; the security provider is a stand-in behind spnego.client."
RULE = "one evaluation = one request or session with one failure pattern; non-trivial when a failure was injected"
ASSUMPTIONS = ["a network timeout closes the connection, so the server asks for authentication again on the next one", "the server answers a repeated message id with the same reply", "pauses are made with time.sleep"]

S = "http://www.w3.org/2003/05/soap-envelope"
WSA = "http://schemas.xmlsoap.org/ws/2004/08/addressing"
FAILS = {"read": requests.ReadTimeout, "connect": requests.ConnectTimeout, "conn": requests.ConnectionError, "chunk": requests.exceptions.ChunkedEncodingError, "ssl": requests.exceptions.SSLError, "proxy": requests.exceptions.ProxyError}
ACTIONS = ["command", "connect", "create", "disconnect", "delete", "enumerate", "get", "pull", "put", "reconnect", "send", "signal"]
BUDGET = 5


def soap(data, body, st=200):
    m = re.search(rb"MessageID>([^<]*)<", data).group(1).decode()
    return st, ('<s:Envelope xmlns:s="%s" xmlns:wsa="%s"><s:Header><wsa:RelatesTo>%s</wsa:RelatesTo></s:Header><s:Body>%s</s:Body></s:Envelope>' % (S, WSA, m, body)).encode()


def final(kind, data):
    if kind == "ok":
        return soap(data, "<x>payload</x>")
    if kind == "fault":
        return soap(data, '<s:Fault><s:Code><s:Value>v</s:Value></s:Code><s:Detail><f:WSManFault xmlns:f="http://schemas.microsoft.com/wbem/wsman/1/wsmanfault" Code="2150858793"/></s:Detail></s:Fault>', 500)
    if kind == "500":
        return 500, b"broken"
    if kind == "503":
        return 503, b"busy"
    if kind == "401":
        return 401, b""
    raise FAILS[kind]("planned")


def pauses_ok(n, backoff):
    same(len(W.sleeps), n, "pauses made")
    if backoff > 0:
        need(all(s > 0 for s in W.sleeps), "a pause of %r" % (W.sleeps,))
        need(all(a < b for a, b in zip(W.sleeps, W.sleeps[1:])), "the pauses do not grow: %r" % (W.sleeps,), "pauses do not grow")
        if n:
            need(W.sleeps[0] >= backoff and W.sleeps[-1] <= backoff * 2 ** (n + 1), "pauses %r for a backoff of %r" % (W.sleeps, backoff), "pause size")
    else:
        need(all(s == 0 for s in W.sleeps), "pauses %r without a backoff" % (W.sleeps,))


def plain(call, budget, pattern, end, backoff, timeout=None):
    """pattern: timeouts met first; end: what happens then"""
    from pypsrp.wsman import WSMan
    seen = []
    seq = list(pattern) + [end] * 3

    def net(adapter, request, kw):
        k = len(seen)
        seen.append((request.body, dict(request.headers), kw["timeout"], request.url))
        st, body = final(seq[min(k, len(seq) - 1)], request.body)
        return env.response(adapter, request, st, body)
    env.start(net, horizon=60)
    w = WSMan("srv", username="u", password="p", ssl=False, auth="basic", encryption="never", reconnection_backoff=backoff)
    err, got = None, None
    try:
        if call == "invoke":
            got = w.invoke("http://x/Custom", "http://r", None, timeout=timeout, retries_on_read_timeout=budget)
        elif call == "invoke-receive":
            got = w.invoke("http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Receive", "http://r", None, timeout=timeout)
        else:
            got = getattr(w, call)("http://r", ET.Element("{http://t}q"), timeout=timeout)
    except core.Violation:
        raise
    except Exception as e:
        err = e
    tries = 0
    last = None
    for x in seq:
        tries += 1
        last = x
        if x not in ("read", "connect") or tries > budget:
            break
    same(len(seen), tries, "requests sent (budget %d, %s then %s)" % (budget, "/".join(pattern), end), "number of attempts")
    for s in seen[1:]:
        same(s, seen[0], "a repeated request", "repeated request differs")
    pauses_ok(tries - 1, backoff)
    if last == "ok":
        need(err is None and b"payload" in ET.tostring(got), "a request that succeeded in the end failed: %r" % err, "success lost")
    else:
        need(err is not None, "%s was reported as success" % last)
        if last in FAILS:
            need(isinstance(err, FAILS[last]), "network error %s surfaced as %r" % (last, err), "error kind")
        else:
            need(type(err).__name__ == {"fault": "WSManFaultError", "500": "WinRMTransportError", "503": "WinRMTransportError", "401": "AuthenticationError"}[last], "%s surfaced as %r" % (last, err), "error kind")
    return (tries, last, tuple(W.sleeps)), bool(pattern) or last != "ok"


# ---------------------------------------------------------------- sessions
def make_inner(kind):
    s = server.ScriptServer([(wire.OUTPUT, "<S>one</S>"), (wire.OUTPUT, "<S>two</S>"), (wire.PIPE_STATE, wire_state())])
    return s


def wire_state():
    from mc import clixml
    return clixml.pipeline_state(4)


SEALED = {"negotiate": dict(auth="negotiate", ssl=False), "ntlm-tls": dict(auth="ntlm", ssl=True, encryption="always"), "kerberos": dict(auth="kerberos", ssl=False), "credssp": dict(auth="credssp", ssl=False), "tls": dict(auth="negotiate", ssl=True), "basic": dict(auth="basic", ssl=False, encryption="never")}
OFFER = {"negotiate": "Negotiate", "ntlm-tls": "Negotiate", "kerberos": "Kerberos", "credssp": "CredSSP", "tls": "Negotiate", "basic": "Negotiate"}


class Once:
    """plans one act for the k-th HTTP request and "ok" otherwise"""

    def __init__(self, acts):
        self.acts = acts

    def __call__(self, srv, e):
        k = len(srv.log) - 1
        return self.acts.get(k, "ok")


def session(mode, acts, legs=2, fin=False, steps=None):
    from pypsrp.powershell import PowerShell, RunspacePool
    from pypsrp.wsman import WSMan
    inner = make_inner(mode)
    plan = authnet.Plan()
    plan.legs, plan.final = legs, fin
    sealed = mode not in ("tls", "basic")
    srv = authnet.AuthServer(lambda data, to: inner.answer(data, to), offers=OFFER[mode], plan=plan, sealed=sealed, decide=Once(acts)).install(horizon=300)
    w = WSMan("srv", username="u", password="p", **SEALED[mode])
    out, err, where = None, None, "open"
    pool = RunspacePool(w)
    ps = None
    try:
        pool.open()
        where = "invoke"
        ps = PowerShell(pool)
        ps.add_script("x")
        out = ps.invoke()
        where = "close"
        pool.close()
        where = "done"
    except core.Violation:
        raise
    except Exception as e:
        err = e
    return srv, inner, pool, ps, where, err, out, w


def act_name(plain):
    m = re.search(rb"Action[^>]*>([^<]*)<", plain or b"")
    return m.group(1).decode().rsplit("/", 1)[1] if m else ""


def check_session(mode, acts, legs, fin):
    srv, inner, pool, ps, where, err, out, w = session(mode, acts, legs, fin)
    need(not srv.errors, "the server rejects a request: %r" % (srv.errors[:3],), "server rejects: " + (srv.errors or [""])[0].split(":")[0][:40])
    need(not inner.errors, "PSRP server errors: %r" % (inner.errors[:3],))
    # group the HTTP requests by message: every message must reach the network unchanged each time
    byid = {}
    plain = lambda e: e["plain"] if e["plain"] is not None else (e["body"] if e["body"] and "multipart" not in (e["ctype"] or "") else None)
    fails = {"readtimeout", "conntimeout", "late"}
    cur = None
    hard = None
    retried = 0
    for k, e in enumerate(srv.log):
        p = plain(e)
        if p is not None:
            key = authnet.mid(p)
            if key in byid:
                same(p, byid[key], "a request sent again", "resent request differs")
            byid[key] = p
    # the failing step: map each planned failure to the message in flight
    nxt = lambda k: next((act_name(plain(e)) for e in srv.log[k:] if plain(e) is not None), None)
    for k, a in sorted(acts.items()):
        if k >= len(srv.log):
            continue
        e = srv.log[k]
        p = plain(e)
        # a blank authentication request belongs to the message that follows it; the caller's failing operation tells which
        if a in ("reset", "chunked") or (a in fails and p is not None and act_name(p) != "Receive"):
            hard = a
            break
    if hard:
        need(err is not None, "%s at request %d of %s: no error reached the caller" % (hard, k, mode), "failure swallowed")
        kinds = {"readtimeout": requests.ReadTimeout, "late": requests.ReadTimeout, "conntimeout": requests.ConnectTimeout, "reset": requests.ConnectionError, "chunked": requests.exceptions.ChunkedEncodingError}
        need(isinstance(err, kinds[hard]), "%s surfaced as %r" % (hard, err), "error kind")
        same(W.sleeps, [], "pauses before an unrepeatable failure") if len(acts) == 1 else None
        key = authnet.mid(plain(srv.log[k])) if plain(srv.log[k]) is not None else None
        if key is not None:
            # nothing of that message is sent after the failure
            need(not any(plain(e) is not None and authnet.mid(plain(e)) == key for e in srv.log[k + 1:]), "a request that may not be repeated was sent again after %s" % hard, "unsafe resend")
    elif err is not None:
        # the failure hit a blank authentication request: allowed to surface only when the operation is not a receive
        need(isinstance(err, (requests.ReadTimeout, requests.ConnectTimeout)), "unexpected error %r" % err, "error kind")
        k = max(i for i in acts if i < len(srv.log))
        need(k == len(srv.log) - 1, "requests were sent after the failing one although the operation failed", "unsafe resend")
        before = [act_name(plain(e)) for e in srv.log[:k] if plain(e) is not None]
        need(not (before and before[-1] == "Receive" and act_was_receive(srv, acts)), "a receive failed after one timeout", "receive not repeated")
        # after a receive timed out, everything up to the next message is its own authentication
        j = max([i for i in range(k) if plain(srv.log[i]) is not None], default=None)
        need(j is None or acts.get(j) not in fails, "a receive failed after %d timeouts" % len(acts), "receive not repeated")
    else:
        same(list(out or []), ["one", "two"], "output after the retries", "output changed by retries")
        same(ps.state, 4, "pipeline state")
        same(len(inner.shells), 1, "shells created")
        sh = list(inner.shells.values())[0]
        same(len(sh.pipes), 1, "pipelines started")
    # every sealed message uses the security context the connection has at that moment
    done = None
    for e in srv.log:
        if e.get("act") in ("readtimeout", "conntimeout", "reset", "chunked"):
            if e["plain"] is not None:
                need(e["ctx"] is done, "message sealed by another security context than the connection's", "stale context")
            done = None
            continue
        if "token" in e and e["token"][1] == legs:
            done = srv.contexts[e["token"][0] - 1]
        if e["plain"] is not None:
            need(done is not None, "a sealed request is sent on a connection that is not authenticated", "not authenticated afresh")
            need(e["ctx"] is done, "message sealed by another security context than the connection's", "stale context")
        if e.get("act") == "late":
            done = None
    return (where, type(err).__name__, len(srv.log), tuple(round(s, 3) for s in W.sleeps)), bool(acts)


def act_was_receive(srv, acts):
    return len(acts) == 1


def recover(mode, acts, legs):
    """a failed operation leaves the connection usable: closing and a second pool on the same connection work"""
    from pypsrp.powershell import PowerShell, RunspacePool
    srv, inner, pool, ps, where, err, out, w = session(mode, acts, legs)
    if err is None:
        return ("no failure",), False
    srv.decide = lambda s, e: "ok"
    try:
        pool.close()
    except Exception as e:
        need(mode == "x" or where == "open" or type(e).__name__ in ("WSManFaultError", "InvalidRunspacePoolStateError"), "closing after %r in %s failed with %r" % (err, where, e), "close fails: " + type(e).__name__)
    try:
        with RunspacePool(w) as p2:
            q = PowerShell(p2)
            q.add_script("y")
            got = list(q.invoke())
    except core.Violation:
        raise
    except Exception as e:
        raise core.Violation("after %r in %s a new pool on the same connection fails with %r" % (err, where, e), "connection unusable after a failure")
    same(got, ["one", "two"], "output of the next pool on the connection")
    need(not srv.errors, "the server rejects a request: %r" % (srv.errors[:3],), "server rejects after recovery")
    return (where, type(err).__name__), True


def spread(mode, first, n, step, acts):
    """from request `first` (a receive) on, every `step`-th HTTP request times out, n times in all: the authentication the
    receive needs again shares its budget"""
    state = {"n": 0}

    def decide(srv, e):
        k = len(srv.log) - 1
        if k >= first and (k - first) % step == 0 and state["n"] < n:
            state["n"] += 1
            return acts[state["n"] % len(acts)]
        return "ok"
    from pypsrp.powershell import PowerShell, RunspacePool
    from pypsrp.wsman import WSMan
    inner = make_inner(mode)
    plan = authnet.Plan()
    plan.legs = 2
    srv = authnet.AuthServer(lambda data, to: inner.answer(data, to), offers=OFFER[mode], plan=plan, sealed=True, decide=decide).install(horizon=300)
    w = WSMan("srv", username="u", password="p", **SEALED[mode])
    err = out = None
    pool = RunspacePool(w)
    pool.open()
    ps = PowerShell(pool)
    ps.add_script("x")
    try:
        out = ps.invoke()
    except core.Violation:
        raise
    except Exception as e:
        err = e
    need(not srv.errors, "the server rejects a request: %r" % (srv.errors[:3],), "server rejects")
    if n <= BUDGET:
        need(err is None, "%d timeouts of one receive and its authentication ended in %r" % (n, err), "receive given up early")
        same(list(out), ["one", "two"], "output after the retries", "output changed by retries")
        same(state["n"], n, "failures met")
        pauses_ok(n, 2.0)
    else:
        need(isinstance(err, requests.Timeout), "%d timeouts of one receive and its authentication ended in %r" % (n, err), "budget")
        same(state["n"], BUDGET + 1, "attempts made", "number of attempts")
    return (n, step, type(err).__name__), True


def cases(tier):
    big = tier == "thorough"
    out = [["receive", i] for i in range(4)] + [["invoke", b] for b in range(0, 7)] + [["others"]]
    for m in SEALED:
        for a in ("readtimeout", "conntimeout", "reset", "chunked", "late"):
            out.append(["single", m, a])
        out.append(["recover", m])
        out.append(["many", m])
        if m not in ("tls", "basic"):
            out.append(["spread", m])
        if big or m in ("negotiate", "basic"):
            out += [["double", m, i] for i in range(24 if big else 24)]
    return out


def run_case(case, rep):
    big = os.environ.get("VERIF_TIER") == "thorough"
    kind = case[0]

    def one(fn, *args):
        rep.execute(lambda: fn(*args), case=case, choices=lambda: repr(args))

    ends = ["ok", "fault", "500", "503", "401", "conn", "chunk", "ssl", "proxy"]
    if kind in ("receive", "invoke"):
        budget = BUDGET if kind == "receive" else case[1]
        for n in range(0, budget + 2):
            for i, pat in enumerate(itertools.product(("read", "connect"), repeat=n)):
                if kind == "receive" and i % 4 != case[1] and n > 1:
                    continue
                if kind == "receive" and n <= 1 and case[1]:
                    continue
                for end in ends if n <= budget else ("read",):
                    for bo in (2.0, 0.5, 0) if n < 3 or big else ((2.0, 0.5, 0)[i % 3],):
                        one(plain, kind, budget, pat, end, bo, (None, 7)[i % 2])
    elif kind == "others":
        for a in ACTIONS + ["invoke-receive"]:
            for end in list(FAILS) + ["ok", "fault", "500", "503", "401"]:
                for bo in (2.0, 0):
                    for t in (None, 4):
                        one(plain, a, 0, (), end, bo, t)
    elif kind == "single":
        m, a = case[1:]
        for legs, fin in ((1, False), (2, False), (2, True), (3, False)) if m not in ("basic", "credssp") else ((2, False),):
            n = len(session(m, {}, legs, fin)[0].log)
            for k in range(n):
                one(check_session, m, {k: a}, legs, fin)
    elif kind == "double":
        n = len(session(case[1], {}, 2, False)[0].log)
        acts = ("readtimeout", "conntimeout", "reset", "late")
        for k in range(case[2], n, 24):
            for d in range(1, 7 if big else 4):
                for a, b in itertools.product(acts, repeat=2):
                    one(check_session, case[1], {k: a, k + d: b}, 2, False)
    elif kind == "many":
        m = case[1]
        srv = session(m, {}, 2, False)[0]
        rx = [k for k, e in enumerate(srv.log) if act_name(e["plain"] or (e["body"] if "multipart" not in (e["ctype"] or "") else b"")) == "Receive"]
        for k in rx:
            for n in range(1, 8):
                for a in ("readtimeout", "conntimeout", "late"):
                    one(repeated, m, k, n, a)
    elif kind == "spread":
        m = case[1]
        srv = session(m, {}, 2, False)[0]
        rx = [k for k, e in enumerate(srv.log) if act_name(e["plain"] or (e["body"] if "multipart" not in (e["ctype"] or "") else b"")) == "Receive"]
        where = next(i for i, e in enumerate(srv.log) if act_name(e["plain"] or b"") == "Command")
        k = next(x for x in rx if x > where)
        for n in (1, 2, 3, 4, 5, 6, 7, 20):
            for step in (1, 2, 3):
                for acts in (("readtimeout",), ("conntimeout",), ("late",), ("readtimeout", "conntimeout")):
                    one(spread, m, k, n, step, acts)
    elif kind == "recover":
        m = case[1]
        for legs in (1, 2) if m != "basic" else (1,):
            n = len(session(m, {}, legs)[0].log)
            for k in range(n):
                for a in ("readtimeout", "reset", "late"):
                    one(recover, m, {k: a}, legs)
    rep.sample({"case": case})


def repeated(mode, first, n, act):
    """the receive in flight at request `first` fails n times in a row (every HTTP request carrying its body)"""
    state = {"key": None, "n": 0}

    def decide(srv, e):
        p = e["plain"] if e["plain"] is not None else (e["body"] if e["body"] and "multipart" not in (e["ctype"] or "") else None)
        k = len(srv.log) - 1
        if k == first:
            state["key"] = authnet.mid(p)
        if p is not None and state["key"] == authnet.mid(p) and state["n"] < n and (mode in ("basic",) or e["auth"] is None or not e["auth"].startswith(("Negotiate", "Kerb", "CredSSP"))):
            state["n"] += 1
            return act
        return "ok"
    from pypsrp.powershell import PowerShell, RunspacePool
    from pypsrp.wsman import WSMan
    inner = make_inner(mode)
    plan = authnet.Plan()
    srv = authnet.AuthServer(lambda data, to: inner.answer(data, to), offers=OFFER[mode], plan=plan, sealed=mode not in ("tls", "basic"), decide=decide).install(horizon=300)
    w = WSMan("srv", username="u", password="p", **SEALED[mode])
    err = out = None
    try:
        with RunspacePool(w) as pool:
            ps = PowerShell(pool)
            ps.add_script("x")
            out = ps.invoke()
    except core.Violation:
        raise
    except Exception as e:
        err = e
    need(not srv.errors, "the server rejects a request: %r" % (srv.errors[:3],), "server rejects")
    carried = state["n"]
    if mode == "tls":
        # each repetition is met by the authentication exchange again, which carries the same body
        need(err is None or isinstance(err, requests.Timeout), "%r" % err)
        return (n, type(err).__name__), True
    if n <= BUDGET:
        need(err is None, "%d timeouts in a row ended in %r" % (n, err), "receive given up early")
        same(list(out), ["one", "two"], "output after the retries", "output changed by retries")
        same(carried, n, "failures met")
        pauses_ok(n, 2.0)
    else:
        need(isinstance(err, requests.ReadTimeout if act != "conntimeout" else requests.ConnectTimeout), "%d timeouts in a row ended in %r" % (n, err), "budget")
        same(carried, BUDGET + 1, "attempts made", "number of attempts")
    return (n, act, type(err).__name__), True
