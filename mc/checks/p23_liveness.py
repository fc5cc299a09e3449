"""P23: liveness checks never open a connection and never misreport."""
import itertools
import os
import threading

import requests

from mc import clixml, core, drive, env, fakesock, server, wire
from mc.core import need, same
from mc.env import W
from mc.server import Fault, Raw

PROP = "P23"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of server answers and network failures (sequences of three), of connection states under the real HTTP stack on controlled sockets, and of all interleavings of two and three threads checking and connecting"
LEVEL_NOTE = "Complete over all sequences of up to three answers from 21 kinds for an open pool and single answers in every pool state; all connection states x proxy x retry settings; all 20 interleavings of two threads for all pairs of roles and, for seven triples of roles, all interleavings of three threads with at most two preemptions (thorough: all 1680), three scheduling points per thread."
RULE = "one evaluation = one answer sequence, connection history or thread schedule; non-trivial when the check is not answered with a plain yes"
ASSUMPTIONS = ["a reply broken off in the middle may be reported either way", "urllib3 opens connections through urllib3.util.connection.create_connection"]

GET = "http://schemas.xmlsoap.org/ws/2004/09/transfer/Get"
FALSE = {"disconnected", "timedout", "unknown", "read", "connect", "conn", "proxy", "ssl", "oserror-timeout", "noshell", "empty"}
EITHER = {"chunk"}
RAISES = {"denied": "WSManFaultError", "fault-quota": "WSManFaultError", "fault-0": "WSManFaultError", "401": "AuthenticationError", "500": "WinRMTransportError", "503": "WinRMTransportError", "html": None}
TRUE = {"connected", "nostate", "other-state"}
ANSWERS = sorted(TRUE | FALSE | EITHER | set(RAISES))
ERR = {"read": requests.ReadTimeout, "connect": requests.ConnectTimeout, "conn": requests.ConnectionError, "proxy": requests.exceptions.ProxyError, "ssl": requests.exceptions.SSLError, "oserror-timeout": TimeoutError, "chunk": requests.exceptions.ChunkedEncodingError}


class Live(server.ScriptServer):
    """answers Get for a shell the way the check decides"""
    answer_with = "connected"
    gets = None

    def on_Pull(self, req):
        return "<x/>"

    def on_Get(self, req):
        self.gets = (self.gets or []) + [req]
        a = self.answer_with
        if a in ERR:
            raise ERR[a]("planned")
        if a == "timedout":
            raise Fault(server.TIMEDOUT)
        if a == "unknown":
            raise Fault(server.UNEXPECTED_SELECTORS)
        if a == "denied":
            raise Fault(server.ACCESS_DENIED)
        if a == "fault-quota":
            raise Fault(2150859173)
        if a == "fault-0":
            raise Fault(0)
        if a in ("401", "500", "503"):
            raise Raw(int(a), b"", {})
        if a == "html":
            raise Raw(200, b"<html>maintenance", {"Content-Type": "text/html"})
        sh = self.shell_for(req)
        if a == "noshell":
            return "<x/>"
        if a == "empty":
            return ""
        state = {"connected": "<rsp:State>Connected</rsp:State>", "disconnected": "<rsp:State>Disconnected</rsp:State>", "nostate": "", "other-state": "<rsp:State>Connecting</rsp:State>"}[a]
        return "<rsp:Shell><rsp:ShellId>%s</rsp:ShellId><rsp:ResourceUri>%s</rsp:ResourceUri>%s<rsp:Owner>o</rsp:Owner></rsp:Shell>" % (sh.id, sh.uri, state)


SCRIPT = [(wire.OUTPUT, "<S>one</S>"), (wire.PIPE_STATE, clixml.pipeline_state(4))]


def run_pipeline(pool):
    from pypsrp.powershell import PowerShell
    ps = PowerShell(pool)
    ps.add_script("x")
    return list(ps.invoke())


def ask(srv, pool, answer, timeout, op):
    """one check, judged; returns the outcome"""
    srv.answer_with = answer
    n = len(srv.log)
    before = pool.state
    try:
        got = pool.is_alive() if timeout is None else pool.is_alive(timeout=timeout)
    except (core.Violation, core.Horizon):
        raise
    except Exception as e:
        got = e
    same(len(srv.log) - n, 1, "requests sent by a check", "requests of a check")
    r = srv.log[-1]
    same(r.action, "Get", "action of a check")
    same(r.selectors, {"ShellId": list(srv.shells.values())[0].id}, "shell asked about", "shell asked about")
    if timeout is not None:
        same(r.op_timeout, "PT%dS" % timeout, "operation timeout of a check")
        need(r.timeout in ((timeout + 2, timeout + 2), timeout + 2), "network timeouts of a check are %r" % (r.timeout,), "timeouts of a check")
    else:
        same(r.op_timeout, "PT%dS" % op, "operation timeout of a check")
    if answer in TRUE:
        need(got is True, "answer %s was reported as %r" % (answer, got), "misreport: alive")
    elif answer in FALSE:
        need(got is False, "answer %s was reported as %r" % (answer, got), "misreport: " + answer)
    elif answer in RAISES:
        need(isinstance(got, Exception), "answer %s was reported as %r" % (answer, got), "misreport: fault swallowed")
        if RAISES[answer]:
            same(type(got).__name__, RAISES[answer], "error for %s" % answer, "error kind")
    else:
        need(got is False or isinstance(got, Exception), "a reply cut short was reported as %r" % got)
    if got is False:
        same(pool.state, 3, "pool state after a negative check", "pool state after a negative check")
    else:
        same(pool.state, before, "pool state after a %s check" % ("positive" if got is True else "failed"), "pool state touched")
    return got


def answers(seq, pool_state, timeout):
    from pypsrp.powershell import RunspacePool
    srv = Live(list(SCRIPT)).install()
    conn = server.connection()
    pool = RunspacePool(conn)
    ps = None
    pool.open()
    if pool_state == "running":
        from pypsrp.powershell import PowerShell
        ps = PowerShell(pool)
        ps.add_script("x")
        ps.begin_invoke()
    elif pool_state == "disconnected":
        srv.on_Disconnect = lambda req: ""
        pool.disconnect()
    out = []
    for a in seq:
        got = ask(srv, pool, a, timeout, conn.operation_timeout)
        out.append(str(got) if not isinstance(got, Exception) else type(got).__name__)
        if got is False:
            n = len(srv.log)
            pool.close()
            same([r.action for r in srv.log[n:]], [], "requests sent by closing a pool found dead", "closing a dead pool sends")
            same(pool.state, 3, "pool state")
            break
    else:
        if pool_state == "opened":
            same(run_pipeline(pool), ["one"], "pipeline after the checks")
        if pool_state == "running":
            same(list(ps.end_invoke()), ["one"], "pipeline running during the checks", "running pipeline disturbed")
        if pool_state != "disconnected":
            n = len(srv.log)
            pool.close()
            same([r.action for r in srv.log[n:] if r.action == "Delete"], ["Delete"], "closing after the checks")
    # checks do not leak: a new pool over the same connection works
    p2 = RunspacePool(conn)
    p2.open()
    same(run_pipeline(p2), ["one"], "a new pool on the connection")
    need(not srv.errors, "server errors %r" % srv.errors[:2])
    return tuple(out), any(a not in TRUE for a in seq)


# ---------------------------------------------------------------- connections
def stack(proxy=None, retries=0, ssl=False, **kw):
    from pypsrp.wsman import WSMan
    return WSMan("srv", ssl=ssl, auth="basic", encryption="auto" if ssl else "never", username="u", password="p", proxy=proxy, no_proxy=proxy is None, reconnection_retries=retries, reconnection_backoff=0.01, cert_validation=False, **kw)


def connections(how, proxy, retries, answer, timeout):
    """what happens to the connection before or during the check"""
    from pypsrp.powershell import RunspacePool
    srv = Live(list(SCRIPT))
    state = {"during": None}

    def handler(conn, line, h, body):
        isget = GET.encode() in body
        if isget and how == "drop-in-check":
            return None
        if isget and how in ("challenge", "challenge-close"):
            return 401, b"", {"WWW-Authenticate": "Basic"}, how == "challenge-close"
        if isget and how == "redirect-close":
            return 307, b"", {"Location": "http://srv:5985/other"}, True
        st, out, hdrs = srv.answer(body)
        return st, out, hdrs, how == "close-each" or (state["during"] == "last" and how == "close-last")
    net = fakesock.Net(handler).install()
    w = stack(proxy, retries)
    try:
        pool = RunspacePool(w)
        if how == "close-last":
            pool.open()
            state["during"] = "last"
            same(run_pipeline(pool), ["one"], "pipeline")
            state["during"] = None
        else:
            pool.open()
        if how == "idle-drop":
            net.drop()
        if how == "refusing":
            net.drop()
            net.refuse = True
        if how == "client-close":
            w.close()
        n = len(net.attempts)
        srv.answer_with = answer
        st = pool.state
        try:
            got = pool.is_alive() if timeout is None else pool.is_alive(timeout=timeout)
        except core.Violation:
            raise
        except Exception as e:
            got = e
        same(len(net.attempts), n, "connections opened by a check (%s, proxy %s)" % (how, proxy), "a check opens a connection")
        gone = how not in ("none", "challenge", "challenge-close")
        if gone:
            need(got is False, "a check that needs a new connection (%s) reported %r" % (how, got), "misreport: needs a connection")
        elif how.startswith("challenge"):
            need(isinstance(got, Exception), "refused credentials were reported as %r" % got)
        elif answer in TRUE:
            need(got is True, "an alive pool was reported as %r" % got, "misreport: alive")
        elif answer in FALSE:
            need(got is False, "answer %s was reported as %r" % (answer, got), "misreport: " + answer)
        else:
            need(isinstance(got, Exception), "answer %s was reported as %r" % (answer, got))
        same(pool.state, 3 if got is False else st, "pool state")
        net.refuse = False
        k = len(srv.log)
        if got is False:
            pool.close()
            same(len(srv.log), k, "requests sent by closing a pool found dead", "closing a dead pool sends")
        # new connections are possible again at once, on this connection object and on others
        net.drop()
        for x in (w, stack(proxy, retries)):
            m = len(net.attempts)
            p2 = RunspacePool(x)
            p2.open()
            same(run_pipeline(p2), ["one"], "a new pool after the check")
            need(len(net.attempts) > m, "no connection made", "harness")
    finally:
        net.uninstall()
        W.reset()
    return (how, proxy, str(got) if not isinstance(got, Exception) else type(got).__name__), how != "none"


def tunnel(secure_proxy):
    """TLS endpoint behind a proxy: no connection attempt may be made at all during the check"""
    from pypsrp.powershell import RunspacePool
    srv = Live(list(SCRIPT)).install()
    w = stack("http://proxy:3128", ssl=True)
    pool = RunspacePool(w)
    pool.open()
    net = fakesock.Net(lambda *a: None)
    net.refuse = True
    keep = W.net
    net.install()
    try:
        got = pool.is_alive()
        same(net.attempts, [], "connections opened by a check", "a check opens a connection")
        need(got is False, "reported %r" % got)
        try:
            RunspacePool(w).open()
            need(False, "opened without a network")
        except requests.exceptions.RequestException:
            pass
        need(len(net.attempts) > 0, "connections stay disabled after the check", "connections stay disabled")
    finally:
        net.uninstall()
        W.reset()
    return ("tunnel", got), True


def nested(outer_answer, inner_answer, after):
    """a check made while another one is under way on the same thread (from a hook): the outer one still opens no connection"""
    from pypsrp.powershell import RunspacePool
    a, b = Live(list(SCRIPT)), Live(list(SCRIPT))
    st = {"pool": None, "got": None, "depth": 0}

    def handler(conn, line, h, body):
        host = h["host"]
        s = b if host.startswith("inner") else a
        if s is a and GET.encode() in body and st["pool"] is not None and st["depth"] == 0:
            st["depth"] = 1
            try:
                st["got"] = st["pool"].is_alive()
            except Exception as e:
                st["got"] = e
            if after == "reconnect":
                return 307, b"", {"Location": "http://srv:5985/wsman2"}, True
        stt, out, hdrs = s.answer(body)
        return stt, out, hdrs, False
    net = fakesock.Net(handler).install()
    from pypsrp.wsman import WSMan
    w1 = stack()
    w2 = WSMan("inner", ssl=False, auth="basic", encryption="never", username="u", password="p", no_proxy=True)
    try:
        p1, p2 = RunspacePool(w1), RunspacePool(w2)
        p1.open()
        p2.open()
        st["pool"] = p2
        a.answer_with, b.answer_with = outer_answer, inner_answer
        if inner_answer == "drop":
            b.answer_with = "connected"
            net.conns[1].peer.close()
        n = len(net.attempts)
        try:
            got = p1.is_alive()
        except core.Violation:
            raise
        except Exception as e:
            got = e
        same(len(net.attempts), n, "connections opened by nested checks", "a check opens a connection")
        inner_false = inner_answer in FALSE or inner_answer == "drop"
        need((st["got"] is False) == inner_false, "inner check %s reported %r" % (inner_answer, st["got"]), "misreport: nested")
        if after == "reconnect":
            need(got is False, "outer check needing a connection reported %r" % got, "misreport: needs a connection")
        else:
            need((got is True) == (outer_answer in TRUE) and (got is False) == (outer_answer in FALSE), "outer check %s reported %r" % (outer_answer, got), "misreport: nested")
        net.drop()
        p3 = RunspacePool(w1)
        p3.open()
    finally:
        net.uninstall()
        W.reset()
    return (outer_answer, inner_answer, after, str(got)[:20]), True


# ---------------------------------------------------------------- threads
class Sched:
    """runs one thread at a time, switching only where told"""

    def __init__(self):
        self.go = {}
        self.back = threading.Semaphore(0)
        self.names = {}
        self.done = set()
        self.errors = []

    def point(self):
        me = self.names.get(threading.get_ident())
        if me is None:
            return
        self.back.release()
        if not self.go[me].acquire(timeout=60):
            raise core.HarnessError("scheduler stuck")

    def add(self, name, fn):
        self.go[name] = threading.Semaphore(0)

        def body():
            self.names[threading.get_ident()] = name
            self.go[name].acquire(timeout=60)
            try:
                fn()
            except BaseException as e:
                self.errors.append((name, e))
            self.done.add(name)
            self.back.release()
        t = threading.Thread(target=body, daemon=True, name=name)
        t.start()
        return t

    def step(self, name):
        if name in self.done:
            return
        self.go[name].release()
        if not self.back.acquire(timeout=60):
            raise core.HarnessError("thread %s does not come back" % name)

    def run(self, schedule, names):
        for n in schedule:
            self.step(n)
        for n in names:
            while n not in self.done:
                self.step(n)


ROLES = ["check", "dropped", "fault", "user", "shared-user"]


def threads(roles, schedule):
    from pypsrp.powershell import RunspacePool
    sched = Sched()
    servers = {}

    def handler(conn, line, h, body):
        s = servers[h["host"].split(":")[0]]
        if GET.encode() in body:
            sched.point()
        st, out, hdrs = s.answer(body)
        return st, out, hdrs, False
    net = fakesock.Net(handler).install()
    from pypsrp.wsman import WSMan
    results = {}
    shared = None
    checking = set()
    try:
        ts = []
        names = []
        pools = {}
        for i, role in enumerate(roles):
            name = "t%d" % i
            names.append(name)
            servers[name] = Live(list(SCRIPT))
            w = WSMan(name, ssl=False, auth="basic", encryption="never", username="u", password="p", no_proxy=True)
            pool = RunspacePool(w)
            pool.open()
            pools[name] = (w, pool)
        for i, role in enumerate(roles):
            name = names[i]
            w, pool = pools[name]
            if role == "dropped":
                for c in net.conns:
                    if c.number == i:
                        c.peer.close()
            if role == "fault":
                servers[name].answer_with = "denied"
            if role == "shared-user":
                # uses the connection object of the first thread
                w = pools[names[0]][0]

            def body(name=name, role=role, w=w, pool=pool):
                me = name
                if role in ("check", "dropped", "fault"):
                    checking.add(me)
                    n = len([a for a in net.attempts if a[1] == me])
                    try:
                        got = pool.is_alive()
                    except Exception as e:
                        got = e
                    if len([a for a in net.attempts if a[1] == me]) != n:
                        raise core.Violation("a check opened a connection", "a check opens a connection")
                    results[me] = got
                    checking.discard(me)
                    sched.point()
                    if role != "check":
                        pass
                    # the thread may connect again
                    w.close()
                    w.pull("http://r")
                else:
                    for k in range(3):
                        if role == "user":
                            w.close()
                        w.pull("http://r")
                        results[me] = k
                        if k < 2:
                            sched.point()
            ts.append(sched.add(name, body))
        sched.run([names[k] for k in schedule], names)
        for t in ts:
            t.join(60)
        for name, e in sched.errors:
            if isinstance(e, core.Violation):
                raise e
            raise core.Violation("thread %s (%s) in schedule %s among %s failed with %r" % (name, roles[int(name[1:])], schedule, roles, e), "a thread is disturbed: " + type(e).__name__)
        for name, role in zip(names, roles):
            got = results.get(name)
            if role == "check":
                need(got is True, "thread %s: alive pool reported %r (schedule %s of %s)" % (name, got, schedule, roles), "misreport under threads")
            elif role == "dropped":
                # a connection another thread opened meanwhile may be used
                need(got is False or (got is True and name == "t0" and "shared-user" in roles), "thread %s: dropped connection reported %r" % (name, got), "misreport under threads")
            elif role == "fault":
                need(type(got).__name__ == "WSManFaultError", "thread %s: fault reported as %r" % (name, got), "misreport under threads")
            else:
                same(got, 2, "sessions opened by thread %s" % name)
    finally:
        net.uninstall()
        W.reset()
    return (roles, tuple(sorted((k, str(v)[:12]) for k, v in results.items()))), True


def perms(counts):
    """all distinct interleavings of threads with the given number of steps"""
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            d = list(counts)
            d[i] -= 1
            for rest in perms(d):
                yield (i,) + rest


def preemptions(s):
    """switches away from a thread that still has steps to take"""
    return sum(1 for k in range(1, len(s)) if s[k] != s[k - 1] and s[k - 1] in s[k:])


THREE = [("check", "check", "user"), ("check", "dropped", "user"), ("check", "fault", "shared-user"), ("check", "check", "check"), ("dropped", "dropped", "user"), ("check", "user", "user"), ("check", "shared-user", "user")]


def cases(tier):
    big = tier == "thorough"
    out = [["threads3", i, j] for i in range(len(THREE)) for j in range(8 if big else 4)]
    out += [["threads2", r] for r in ROLES]
    out += [["answers3", a] for a in ANSWERS]
    out += [["conns", h] for h in ("none", "idle-drop", "refusing", "drop-in-check", "close-each", "close-last", "client-close", "challenge", "challenge-close", "redirect-close")]
    return out + [["states"], ["nested"], ["tunnel"]]


def run_case(case, rep):
    big = os.environ.get("VERIF_TIER") == "thorough"
    kind = case[0]

    def one(fn, *args):
        rep.execute(lambda: fn(*args), case=case, choices=lambda: repr(args))
    if kind == "threads3":
        roles = THREE[case[1]]
        m = 8 if big else 4
        for i, s in enumerate(perms([3, 3, 3])):
            if i % m == case[2] and (big or preemptions(s) <= 2):
                one(threads, roles, s)
    elif kind == "threads2":
        for r in ROLES:
            if case[1] == "shared-user" and r == "shared-user":
                continue
            for s in perms([3, 3]):
                one(threads, (case[1], r), s)
    elif kind == "answers3":
        a = case[1]
        for t in (None, 5):
            one(answers, (a,), "opened", t)
        if a in FALSE:
            return
        for b in ANSWERS:
            one(answers, (a, b), "opened", None)
            if b in FALSE:
                continue
            for c in ANSWERS if big else ("connected", "disconnected", "denied", "read", "conn", "unknown"):
                one(answers, (a, b, c), "opened", (None, 3)[len(c) % 2])
    elif kind == "conns":
        for proxy in (None, "http://proxy:3128"):
            for retries in (0, 1, 2):
                for a in ("connected", "disconnected", "timedout", "unknown", "denied"):
                    for t in (None, 5):
                        one(connections, case[1], proxy, retries, a, t)
    elif kind == "states":
        for st in ("running", "disconnected"):
            for a in ANSWERS:
                for t in (None, 1, 30):
                    one(answers, (a,), st, t)
    elif kind == "nested":
        for o in ("connected", "disconnected", "denied"):
            for i in ("connected", "disconnected", "denied", "unknown", "drop"):
                for after in ("answer", "reconnect"):
                    one(nested, o, i, after)
    else:
        one(tunnel, False)
