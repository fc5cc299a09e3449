"""P29: a failure at any step surfaces as an error and can be cleaned up."""
import base64
import gc
import logging
import os
import re

import requests

from mc import authnet, clixml, core, drive, fakesock, server, winrs, wire
from mc.core import need, same
from mc.env import W
from mc.server import Fault, Raw

PROP = "P29"
LEVEL = "exploration"
TECHNIQUE = "exhaustive fault enumeration: every request of every scenario fails in every way, before or after the server acted, on the real pool, pipeline, shell and process classes over a reference server; each failure is followed by the cleanup a caller would do, by another pipeline on the same pool and by a fresh session on the same connection"
LEVEL_NOTE = "Complete over fourteen scenarios (pool, pipelines with input, host prompts, control requests, key exchange, metadata, disconnect and reconnect by the same and by a new client, stop, two pipelines, processes, sealed transport) x every request position x twelve failure kinds x before/after execution; thorough adds every pair of failing positions for four kinds and three times larger data."
RULE = "one evaluation = one scenario run with the chosen failures, its cleanup and the following sessions; non-trivial when the failure was reached"
ASSUMPTIONS = ["the server is healthy before and after the failing request", "a reply to Receive that was lost is not sent again by the server, so the client may wait for it", "a shell whose creation was never acknowledged cannot be removed by the client"]

BIG = 3000
CODES = {"fault": 5, "quota": 2150859173, "gone": 2150858843}


def cut(body):
    """the reply's stream data ends early"""
    def sub(m):
        raw = base64.b64decode(m.group(2))
        return m.group(1) + base64.b64encode(raw[:-7]).decode() + m.group(3) if len(raw) > 40 else m.group(0)
    return re.sub(r"(<rsp:Stream [^>]*>)([^<]+)(</rsp:Stream>)", sub, body)


KINDS = {
    "fault": lambda: Fault(5), "quota": lambda: Fault(CODES["quota"]), "gone": lambda: Fault(CODES["gone"]),
    "500": lambda: Raw(500, b"", {}), "503": lambda: Raw(503, b"busy", {"Content-Type": "text/plain"}), "401": lambda: Raw(401, b"", {}),
    "html": lambda: Raw(200, b"<html><p>", {"Content-Type": "text/html"}), "empty": lambda: Raw(200, b"", {}),
    "conn": lambda: requests.ConnectionError("cut"), "read": lambda: requests.ReadTimeout("slow"), "chunk": lambda: requests.exceptions.ChunkedEncodingError("short"),
}
REPLIES = ["relates", "half", "cut", "soap-empty", "sealed", "sealed-nob", "utf8"]     # alter the reply of the executed request


class Injected:
    """mixes the failures into a server"""
    plan = ()          # ((index, kind, after), ...)
    hits = ()

    def arm(self, plan):
        self.plan = {i: (k, a) for i, k, a in plan}
        self.hits = []

    def before(self, req):
        i = len(self.log) - 1
        k = self.plan.get(i) if self.plan else None
        if k and not k[1]:
            self.hits.append((i, req.action, k[0]))
            raise KINDS[k[0]]()

    def after(self, req, body):
        i = len(self.log) - 1
        k = self.plan.get(i) if self.plan else None
        if k and k[1]:
            self.hits.append((i, req.action, k[0]))
            if k[0] in KINDS:
                raise KINDS[k[0]]()
            if k[0] == "half":
                full = self.envelope(req, body)
                raise Raw(200, full[:len(full) - 30], None)
            if k[0].startswith("sealed"):
                raise Raw(200, self.envelope(req, body), {"Content-Type": 'multipart/encrypted;protocol="application/HTTP-SPNEGO-session-encrypted"' + (';boundary="Encrypted Boundary"' if k[0] == "sealed" else "")})
            if k[0] == "utf8":
                raise Raw(200, self.envelope(req, body).replace(b"</", b"\xff\xfe</", 1), None)
            if k[0] == "relates":
                raise Raw(200, self.envelope(req, body).replace(req.message_id.encode(), b"uuid:00000000-0000-0000-0000-000000000000"), None)
            if k[0] == "soap-empty":
                return ""
            if k[0] == "cut":
                changed = cut(body)
                if changed == body:
                    self.hits.pop()
                return changed
        return body


class Ps(Injected, server.FullServer):
    frag_size = 1200

    def pipeline_done(self, p):
        return self.script

    def on_pipe_message(self, sh, p, m):
        cmd = server.commands(p.created)[0]["Cmd"] if m.type == wire.CREATE_PIPELINE else None
        if m.type == wire.GET_COMMAND_METADATA:
            count = server.METADATA_COUNT.replace(">0<", ">1<")
            self.send(sh, p, wire.OUTPUT, count)
            self.send(sh, p, wire.OUTPUT, '<Obj RefId="0"><TN RefId="0"><T>Selected.System.Management.Automation.CmdletInfo</T><T>System.Object</T></TN><MS><S N="Name">Get-It</S><S N="Namespace">Ns</S><S N="HelpUri">h</S><Obj N="CommandType" RefId="1"><TN RefId="1"><T>System.Management.Automation.CommandTypes</T><T>System.Enum</T></TN><ToString>Cmdlet</ToString><I32>8</I32></Obj><Nil N="OutputType" /><Nil N="Parameters" /></MS></Obj>')
            self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(4))
        elif cmd == "prompt":
            # several messages in one reply: the prompt among outputs
            self.send(sh, p, wire.OUTPUT, "<S>first</S>")
            self.send(sh, p, wire.PIPE_HOST_CALL, clixml.host_call(11, 11, "ReadLine", ""))
            self.send(sh, p, wire.OUTPUT, "<S>asked</S>")
        elif cmd == "echo":
            pass
        elif cmd == "endless":
            self.send(sh, p, wire.OUTPUT, "<S>running</S>")
        elif m.type == wire.CREATE_PIPELINE:
            name = cmd or "x"
            self.send(sh, p, wire.OUTPUT, "<S>%s</S>" % name)
            self.send(sh, p, wire.OUTPUT, "<S>%s</S>" % ("ab" * (BIG // 2)))
            self.send(sh, p, wire.WARNING, clixml.info_record("Warning", "careful"))
            self.send(sh, p, wire.OUTPUT, "<S>7</S>" if any(c["Cmd"] == "Out-String" for c in server.commands(p.created)) else "<I32>7</I32>")
            self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(4))
        elif m.type == wire.END_OF_INPUT:
            for i in p.inputs:
                self.send(sh, p, wire.OUTPUT, i)
            self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(4))

    def on_host_response(self, sh, m):
        for p in sh.pipes.values():
            if p.pid == m.pid:
                self.send(sh, p, wire.OUTPUT, "<S>answered</S>")
                self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(4))

    def take(self, req, q_):
        # two blobs per reply, so that replies hold parts of several messages
        return [q_.popleft() for _ in range(min(2, len(q_)))]

    def on_Signal(self, req):
        r = super().on_Signal(req)
        if req.info["code"] == "powershell/signal/ctrl_c":
            self.send(req.pipe.shell, req.pipe, wire.PIPE_STATE, clixml.pipeline_state(3))
        return r


class Cmd(Injected, winrs.CmdServer):
    def before(self, req):
        Injected.before(self, req)


class Scene:
    """a caller's session: named steps; every pool, pipeline, shell it made is known for the cleanup"""

    def __init__(self, conn):
        self.conn = conn
        self.pools, self.pipes, self.shells, self.procs = [], [], [], []
        self.results = []

    def pool(self, **kw):
        from pypsrp.powershell import RunspacePool
        p = RunspacePool(self.conn, **kw)
        self.pools.append(p)
        return p

    def pipe(self, pool, command):
        from pypsrp.powershell import PowerShell
        ps = PowerShell(pool)
        ps.add_cmdlet(command)
        self.pipes.append(ps)
        return ps


def seen(ps):
    return drive.result(ps)


def s_plain(s):
    """one pipeline"""
    pool = s.pool()
    yield pool.open
    ps = s.pipe(pool, "Get-A")
    yield ps.invoke
    yield lambda: seen(ps)
    yield ps.close
    yield pool.close


def s_async(s):
    """asynchronous use, and the same pipeline object again"""
    pool = s.pool()
    yield pool.open
    ps = s.pipe(pool, "Get-B")
    yield ps.begin_invoke
    yield ps.poll_invoke
    yield ps.end_invoke
    yield lambda: seen(ps)
    yield ps.close
    yield pool.close


def s_input(s):
    pool = s.pool()
    yield pool.open
    ps = s.pipe(pool, "echo")
    ps.add_parameter("Long", "x" * BIG)

    def gen():
        yield "one"
        yield ["two" * (BIG // 3), 3]
        yield "four"
    yield lambda: ps.begin_invoke(gen())
    yield ps.end_invoke
    yield lambda: seen(ps)
    yield ps.close
    yield pool.close


def s_prompt(s):
    pool = s.pool(host=drive.host(read_line="typed" * 700))
    yield pool.open
    ps = s.pipe(pool, "prompt")
    yield ps.invoke
    yield lambda: seen(ps)
    yield ps.close
    yield pool.close


def s_control(s):
    pool = s.pool(min_runspaces=1, max_runspaces=2)
    yield pool.open
    yield lambda: setattr(pool, "max_runspaces", 4)
    yield lambda: setattr(pool, "min_runspaces", 2)
    yield pool.get_available_runspaces
    yield pool.reset_runspace_state
    yield lambda: (pool.max_runspaces, pool.min_runspaces)
    yield pool.close


def s_keys(s):
    pool = s.pool()
    yield pool.open
    yield pool.exchange_keys
    ps = s.pipe(pool, "echo")
    yield lambda: ps.begin_invoke([pool.serialize("secret")])
    yield ps.end_invoke
    yield lambda: seen(ps)
    yield ps.close
    yield pool.close


def s_meta(s):
    pool = s.pool()
    yield pool.open
    yield lambda: [m.name for m in pool.get_command_metadata("Get-*")]
    yield pool.close


def s_disconnect(s):
    pool = s.pool()
    yield pool.open
    ps = s.pipe(pool, "Get-D")
    yield ps.begin_invoke
    yield pool.disconnect
    yield lambda: (int(pool.state), int(ps.state))
    yield pool.connect
    yield ps.connect
    yield lambda: seen(ps)
    yield ps.close
    yield pool.close


def s_newclient(s):
    from pypsrp.powershell import RunspacePool
    pool = s.pool()
    yield pool.open
    ps = s.pipe(pool, "Get-N")
    yield ps.begin_invoke
    yield pool.disconnect
    s.pools.remove(pool)
    s.pipes.remove(ps)
    found = []

    def find():
        del found[:]
        found.extend(p for p in RunspacePool.get_runspace_pools(s.conn) if p.id.upper() == pool.id.upper())
        return len(found)
    s.orphan = pool
    yield find
    s.orphan = None
    s.pools.append(found[0])
    yield found[0].connect
    other = found[0].create_disconnected_power_shells()
    s.pipes.extend(other)
    yield lambda: len(other)
    yield other[0].connect
    yield lambda: seen(other[0])
    yield other[0].close
    yield found[0].close


def s_stop(s):
    pool = s.pool()
    yield pool.open
    ps = s.pipe(pool, "endless")
    yield ps.begin_invoke
    yield ps.poll_invoke
    yield ps.stop
    yield lambda: (int(ps.state), list(ps.output))
    yield ps.close
    yield pool.close


def s_two(s):
    pool = s.pool(max_runspaces=2)
    yield pool.open
    a, b = s.pipe(pool, "Get-A"), s.pipe(pool, "echo")
    yield a.begin_invoke
    yield lambda: b.begin_invoke(["in"])
    yield a.poll_invoke
    yield b.poll_invoke
    yield a.end_invoke
    yield lambda: seen(a)
    yield b.end_invoke
    yield lambda: seen(b)
    yield a.close
    yield b.close
    yield pool.close


def s_config(s):
    yield s.conn.update_max_payload_size
    pool = s.pool()
    yield pool.open
    yield pool.close


def s_process(s):
    from pypsrp.shell import Process, SignalCode, WinRS
    sh = WinRS(s.conn, environment={"a": "b"})
    s.shells.append(sh)
    yield sh.open
    pr = Process(sh, "run", ["x"])
    s.procs.append(pr)
    yield pr.begin_invoke
    yield lambda: pr.send(b"data" * 10)
    yield pr.poll_invoke
    yield pr.end_invoke
    yield lambda: (pr.rc, pr.stdout, pr.stderr)
    yield lambda: pr.signal(SignalCode.TERMINATE)
    yield sh.close


def s_process_invoke(s):
    from pypsrp.shell import Process, WinRS
    sh = WinRS(s.conn)
    s.shells.append(sh)
    yield sh.open
    pr = Process(sh, "run")
    s.procs.append(pr)
    yield pr.invoke
    yield lambda: (pr.rc, pr.stdout, pr.stderr)
    yield sh.close


PSCENES = {"plain": s_plain, "async": s_async, "input": s_input, "prompt": s_prompt, "control": s_control, "keys": s_keys, "meta": s_meta, "disconnect": s_disconnect, "newclient": s_newclient, "stop": s_stop, "two": s_two, "config": s_config}
CSCENES = {"process": s_process, "process-invoke": s_process_invoke}
SCRIPT = lambda c: [([("stdout", b"out one "), ("stderr", b"err")], "Running", None), "timeout", ([("stdout", b"out two")], None, None), ([("stdout", b"end")], "Done", 9)]


def conn_for(**kw):
    return server.connection(max_envelope_size=kw.pop("size", 3500), reconnection_backoff=0, **kw)


def make(name):
    if name in CSCENES:
        return Cmd(SCRIPT).install(), CSCENES[name]
    return Ps().install(), PSCENES[name]


def play(scene, steps):
    """runs the steps until one raises; -> (values, error or None, index)"""
    values = []
    i = -1
    for i, step in enumerate(steps):
        try:
            v = step()
        except (core.Violation, core.HarnessError, core.Horizon):
            raise
        except Exception as e:
            return values, e, i
        values.append(drive.freeze(v) if not isinstance(v, tuple) and not hasattr(v, "tag") else repr(v) if not hasattr(v, "tag") else None)
    return values, None, i


class Formatting(logging.Handler):
    """what a program with a debug log does; a record that cannot be formatted is an error"""
    count = 0

    def emit(self, record):
        self.count += 1
        record.getMessage()


def debug(name):
    """the session is the same with the debug log on"""
    want, actions = base(name)
    srv, sc = make(name)
    s = Scene(conn_for())
    values, err, _ = play(s, sc(s))
    need(err is None and not srv.errors, "with the debug log: %r %s" % (err, srv.errors[:2]), "debug log changes the session")
    same(values, want, "results with the debug log", "debug log changes the session")
    same([r.action for r in srv.log], [a for a, _ in actions], "requests with the debug log", "debug log changes the session")
    return (name,), True


_base = {}


def base(name):
    """what the scenario does when nothing fails"""
    key = (name, os.getpid())
    if key not in _base:
        srv, sc = make(name)
        s = Scene(conn_for())
        values, err, _ = play(s, sc(s))
        need(err is None and not srv.errors, "scenario %s fails by itself: %r %s" % (name, err, srv.errors[:2]), "fault-free run")
        _base[key] = (values, [(r.action, getattr(r, "command_id", None)) for r in srv.log])
    return _base[key]


def expected_error(kind, err):
    from pypsrp.exceptions import AuthenticationError, WinRMTransportError, WSManFaultError
    if kind in CODES:
        return isinstance(err, WSManFaultError) and err.code == CODES[kind]
    if kind in ("500", "503"):
        return isinstance(err, WinRMTransportError) and err.code == int(kind)
    if kind == "401":
        return isinstance(err, AuthenticationError)
    if kind == "conn":
        return isinstance(err, requests.ConnectionError)
    if kind == "read":
        return isinstance(err, requests.ReadTimeout)
    if kind == "chunk":
        return isinstance(err, requests.exceptions.ChunkedEncodingError)
    from pypsrp.exceptions import InvalidPipelineStateError, InvalidRunspacePoolStateError
    return not isinstance(err, (InvalidPipelineStateError, InvalidRunspacePoolStateError))


def live(srv):
    if isinstance(srv, Cmd):
        return [s for s in srv.order if not s.deleted]
    return [s for s in srv.shells.values() if not s.closed]


def cleanup(s, srv, action, after, label):
    """what a caller does after an error; everything the server has must be removable"""
    lost = after and action in ("Signal", "Delete")     # done at the server already
    from pypsrp.complex_objects import PSInvocationState as PS
    for ps in s.pipes:
        if ps.state == PS.RUNNING:
            attempt(ps.stop, "stopping the pipeline after %s" % label, lost)
        if ps.state == PS.DISCONNECTED:
            continue
        attempt(ps.close, "closing the pipeline after %s" % label, lost)
    for p in s.pools + s.shells + ([s.orphan] if getattr(s, "orphan", None) else []):
        attempt(p.close, "closing after %s" % label, lost)
    if not (action == "Create" and after):
        need(not live(srv), "%d shells are left on the server after %s and the cleanup" % (len(live(srv)), label), "shell left behind")


def attempt(fn, what, may_fail):
    try:
        fn()
    except (core.Violation, core.HarnessError, core.Horizon):
        raise
    except Exception as e:
        need(may_fail, "%s fails: %r" % (what, e), "cleanup refused")


BENIGN = {("read", "Receive")}


def run(name, plan):
    want, actions = base(name)
    srv, sc = make(name)
    conn = conn_for()
    s = Scene(conn)
    srv.arm(plan)
    try:
        values, err, at = play(s, sc(s))
    except core.Horizon:
        # data the client had not seen went with the lost reply
        need(srv.hits and srv.hits[-1][1] == "Receive" and plan[-1][2], "the client waits for ever after %s" % (srv.hits,), "endless wait")
        return ("waits", tuple(plan)), True
    label = "%s failed" % (srv.hits,)
    if not srv.hits:
        same((values, repr(err)), (want, "None"), "outcome without a failure", "outcome")
        return ("not reached", len(plan)), False
    if any(h[1:] == ("Receive", "read") and srv.plan[h[0]][1] for h in srv.hits):
        return ("data gone with a lost reply",), False
    # a poll that got no answer is repeated: what counts is the failure after it
    i, action, kind = srv.hits[-1] if srv.hits[0][1:] == ("Receive", "read") else srv.hits[0]
    after = srv.plan[i][1]
    if err is None:
        ok = (kind, action) in BENIGN or kind in ("soap-empty",)
        need(ok, "the session goes on as if nothing happened although %s" % label, "failure ignored")
        if kind != "soap-empty" or action == "Receive":
            same(values, want, "results although %s" % label, "partial result")
        return ("absorbed", i, kind), True
    last = srv.hits[-1]
    need(expected_error(last[2], err) or (len(srv.hits) > 1 and expected_error(srv.hits[0][2], err)), "%s, but the error raised is %r" % (label, err), "other error raised")
    same(values, want[:len(values)], "results before the failure", "earlier results")
    gone = any(srv.plan[h[0]][1] for h in srv.hits) or (len(srv.hits) > 1 and srv.hits[0][1:] != ("Receive", "read"))
    srv.arm(())
    # nothing was lost: waiting again gives everything
    if action == "Receive" and not gone:
        for ps in s.pipes:
            if int(ps.state) == 1 and server.commands is not None:
                name_ = ps.commands[0].cmd if ps.commands else None
                if name_ in ("endless",) or (name == "two" and name_ == "echo" and at < 3) or name == "newclient":
                    continue
                same(list(ps.end_invoke()), full(name_, name), "output of the pipeline when waiting again after %s" % label, "partial result")
    # another pipeline on the same pool, when the failure was about one pipeline
    if action in ("Command", "Receive", "Send", "Signal") and name in ("plain", "async", "input", "prompt", "stop", "two") and at > 0:
        pool = s.pools[0]
        if int(pool.state) == 2:
            ps = s.pipe(pool, "Get-Next")
            try:
                got = list(ps.invoke())
            except (core.Violation, core.HarnessError, core.Horizon):
                raise
            except Exception as e:
                raise core.Violation("another pipeline of the pool fails after %s: %r" % (label, e), "pool unusable")
            same(got, full("Get-Next", "plain"), "output of another pipeline after %s" % label, "pool unusable")
    # and the other pipeline that was running
    if name == "two" and action == "Receive" and at in (3, 5) and int(s.pipes[1].state) == 1:
        same(list(s.pipes[1].end_invoke()), ["in"], "output of the other running pipeline after %s" % label, "other pipeline")
    cleanup(s, srv, action, after or kind in REPLIES, label)
    fresh(name, conn, srv, want, label)
    need(not srv.errors, "requests the server cannot accept after %s: %s" % (label, srv.errors[:2]), "requests")
    return ("raised", i, kind, type(err).__name__), True


def full(cmd, name):
    if name == "prompt" and cmd == "prompt":
        return ["first", "asked", "answered"]
    if cmd == "echo":
        return {"input": ["one", "two" * (BIG // 3), 3, "four"], "two": ["in"], "keys": ["secret"]}[name]
    return [cmd, "ab" * (BIG // 2), 7]


def fresh(name, conn, srv, want, label):
    srv.log_before = len(srv.log)
    if name in CSCENES:
        s = Scene(conn)
        values, err, _ = play(s, CSCENES[name](s))
        same((values, repr(err)), (want, "None"), "a fresh session after %s" % label, "fresh session")
    else:
        s = Scene(conn)
        w, _ = base("plain")
        values, err, _ = play(s, s_plain(s))
        same((values, repr(err)), (w, "None"), "a fresh session after %s" % label, "fresh session")


# ---- context managers

def c_pool(s, conn):
    from pypsrp.powershell import PowerShell, RunspacePool
    with RunspacePool(conn) as pool:
        ps = PowerShell(pool)
        ps.add_cmdlet("Get-A")
        s["ps"] = ps
        out = ps.invoke()
        ps.close()
    return list(out)


def c_ps(s, conn):
    from pypsrp.powershell import PowerShell, RunspacePool
    with RunspacePool(conn) as pool, PowerShell(pool) as ps:
        ps.add_cmdlet("Get-A")
        s["ps"] = ps
        return list(ps.invoke())


def c_ps_input(s, conn):
    from pypsrp.powershell import PowerShell, RunspacePool
    with RunspacePool(conn) as pool:
        with PowerShell(pool) as ps:
            ps.add_cmdlet("echo").add_parameter("Long", "x" * BIG)
            s["ps"] = ps
            out = list(ps.invoke(["one", "two" * BIG]))
    return out


def c_conn(s, conn):
    from pypsrp.powershell import PowerShell, RunspacePool
    with conn, RunspacePool(conn) as pool, PowerShell(pool) as ps:
        ps.add_cmdlet("Get-A")
        s["ps"] = ps
        return list(ps.invoke())


def c_winrs(s, conn):
    from pypsrp.shell import Process, SignalCode, WinRS
    with WinRS(conn) as sh:
        p = Process(sh, "run", ["x"])
        p.invoke()
        p.signal(SignalCode.TERMINATE)
        return p.rc, p.stdout, p.stderr


def c_user(s, conn):
    """an error of the caller's own"""
    from pypsrp.powershell import PowerShell, RunspacePool
    with RunspacePool(conn) as pool, PowerShell(pool) as ps:
        ps.add_cmdlet("endless")
        s["ps"] = ps
        ps.begin_invoke()
        raise KeyError("mine")


def client():
    from pypsrp.client import Client
    return Client("srv", ssl=False, auth="basic", encryption="never", username="u", password="p", no_proxy=True, max_envelope_size=3500, reconnection_backoff=0)


def c_client(s, conn):
    with client() as c:
        return [c.execute_ps("Get-A")[0], c.execute_ps("Get-B")[0]]


def c_client_cmd(s, conn):
    with client() as c:
        return c.execute_cmd("run x")


CONTEXTS = {"pool": c_pool, "ps": c_ps, "ps-input": c_ps_input, "conn": c_conn, "winrs": c_winrs, "client": c_client, "client-cmd": c_client_cmd}


class Mine(Exception):
    pass


def released(what, end, at):
    """Leaving the context of a client or of a connection closes every network connection it made, also after an error; it may be entered again."""
    from pypsrp.powershell import PowerShell, RunspacePool
    srv = Ps().install()
    count = [0]

    def handler(conn, line, h, body):
        count[0] += 1
        if end == "drop" and count[0] == at:
            return None
        if end == "html" and count[0] == at:
            return 502, b"<html/>", {"Content-Type": "text/html"}, False
        st, out, hdrs = srv.answer(body)
        return st, out, hdrs, False
    net = fakesock.Net(handler).install()

    def work(c):
        if what == "client":
            c.execute_ps("Get-A")
        else:
            with RunspacePool(c) as pool, PowerShell(pool) as ps:
                ps.add_cmdlet("Get-A")
                ps.invoke()
        if end == "mine":
            raise Mine()

    def check(label):
        for n in net.conns:
            if n.peer.fileno() < 0:
                continue
            n.peer.setblocking(False)
            try:
                rest = n.peer.recv(1 << 20)
            except BlockingIOError:
                rest = None
            n.peer.setblocking(True)
            need(rest == b"", "connection %d is still open %s" % (n.number, label), "connection left open")
    try:
        c = client() if what == "client" else conn_for(ssl=False, auth="basic", encryption="never", username="u", password="p", no_proxy=True)
        for turn in range(2):
            err, before = None, count[0]
            try:
                with c as inner:
                    need(inner is c, "the context gives %r" % (inner,), "context gives another object")
                    work(inner)
            except (core.Violation, core.HarnessError):
                raise
            except Exception as e:
                # urllib3 closes a connection pool when nothing refers to it any more, a kept error would
                err = type(e) if type(e) is Mine else repr(e)
            gc.collect()
            hit = before < at <= count[0]
            if end in ("drop", "html") and hit:
                need(err is not None, "the failure is ignored", "failure ignored")
            elif end == "mine":
                need(err is Mine, "the caller's error leaves the context as %r" % (err,), "other error raised")
            else:
                need(err is None, "context %d fails with %r" % (turn, err), "context fails by itself")
            need(net.conns, "no connection was made", "fault-free run")
            check("after leaving the %s context, %s" % (what, err))
        need(end in ("drop", "html") or not srv.errors, "server: %s" % srv.errors[:2], "fault-free run")
        return (what, end, at, hit), True
    finally:
        net.uninstall()
        W.reset()


def context(name, plan, dead):
    def server_():
        return (Cmd(SCRIPT) if name in ("winrs", "client-cmd") else Ps()).install()
    key = ("ctx", name, os.getpid())
    if key not in _base:
        srv = server_()
        r = CONTEXTS[name]({}, conn_for())
        need(not srv.errors and not live(srv), "context %s fails by itself: %s" % (name, srv.errors[:2]), "fault-free run")
        _base[key] = (r, srv.actions())
    want, actions = _base[key]
    srv = server_()
    conn = conn_for()
    if dead:
        plan = [(i, plan[0][1], plan[0][2]) for i in range(plan[0][0], plan[0][0] + 40)]
    srv.arm(plan)
    try:
        got, err = CONTEXTS[name]({}, conn), None
    except (core.Violation, core.HarnessError):
        raise
    except core.Horizon:
        need(plan[0][2] and srv.hits and srv.hits[-1][1] == "Receive", "endless wait", "endless wait")
        return ("waits", tuple(plan[0])), True
    except Exception as e:
        got, err = None, e
    if not srv.hits:
        return ("not reached",), False
    i, action, kind = srv.hits[0]
    label = "%s failed" % (srv.hits[:3],)
    if err is None:
        need((kind, action) in BENIGN, "the context ends normally although %s" % label, "failure ignored")
        same(got, want, "result although %s" % label, "partial result")
        return ("absorbed", i), True
    need(expected_error(kind, err), "%s, but the error leaving the context is %r" % (label, err), "other error raised")
    after = srv.plan[i][1]
    tail = srv.actions()[i + 1:]
    if action not in ("Create",):
        if action != "Delete":
            need("Delete" in tail, "the shell is not removed when leaving the context after %s" % label, "no cleanup")
    if not dead and action != "Create" and not (action == "Delete" and not after):
        need(not live(srv), "a shell is left on the server after %s" % label, "shell left behind")
    if not dead and name.startswith("ps") and action in ("Receive", "Send") and "Command" in srv.actions()[:i]:
        need("Signal" in tail, "the running pipeline is not ended when leaving its context after %s" % label, "no cleanup")
    srv.arm(())
    same(CONTEXTS[name]({}, conn), want, "the same again after %s" % label, "fresh session")
    return ("raised", i, kind, type(err).__name__), True


def user_error():
    srv = Ps().install()
    conn = conn_for()
    s = {}
    try:
        c_user(s, conn)
        err = None
    except KeyError as e:
        err = e
    except Exception as e:
        raise core.Violation("the caller's own error is replaced by %r" % e, "other error raised")
    need(err is not None, "the caller's error is swallowed", "other error raised")
    need(not live(srv), "shell left behind", "shell left behind")
    need("Signal" in srv.actions(), "the running pipeline is not ended when leaving its context", "no cleanup")
    return ("user",), True


def sealed(at, kind):
    """over an authenticated, sealed connection"""
    inner = Ps()
    a = authnet.AuthServer(inner.answer, decide=lambda srv, e: "ok")
    n = []
    armed = [at]

    def decide(srv, e):
        n.append(1)
        return kind if armed[0] == len(n) - 1 else "ok"
    a.decide = decide
    a.install()
    try:
        conn = conn_for(auth="negotiate", ssl=False, size=6000)
        s = Scene(conn)
        w, _ = base("plain")
        a.install()
        del n[:]
        values, err, i = play(s, s_plain(s))
        if at is None:
            same((values, repr(err)), (w, "None"), "sealed session", "outcome")
            return len(n), False
        if len(n) <= at:
            return ("not reached",), False
        armed[0] = None
        if err is None:
            same(values, w, "results although %s at request %d" % (kind, at), "partial result")
        else:
            same(values, w[:len(values)], "results before the failure", "earlier results")
        act = inner.log[-1].action if inner.log else None
        lost = kind == "late"
        for ps in s.pipes:
            if int(ps.state) == 1:
                attempt(ps.stop, "stop", lost)
            attempt(ps.close, "closing the pipeline after %s" % kind, lost)
        for p in s.pools:
            attempt(p.close, "closing the pool after %s" % kind, lost)
        if not (act == "Create" and lost):
            need(lost or not [x for x in inner.shells.values() if not x.closed], "a shell is left behind after %s" % kind, "shell left behind")
        s2 = Scene(conn)
        values, err, i = play(s2, s_plain(s2))
        same((values, repr(err)), (w, "None"), "a fresh session after %s at request %d" % (kind, at), "fresh session")
        need(not a.errors and not inner.errors, "server refuses: %s %s" % (a.errors[:2], inner.errors[:2]), "requests")
        return (at, kind, type(err).__name__), True
    finally:
        authnet.uninstall()


def cases(tier):
    out = [["one", n, k, a] for n in list(PSCENES) + list(CSCENES) for k in KINDS for a in (False, True)]
    out += [["one", n, k, True] for n in list(PSCENES) + list(CSCENES) for k in REPLIES]
    out += [["ctx", n, k, a] for n in CONTEXTS for k in list(KINDS) for a in (False, True)] + [["user"]]
    out += [["released", w, e] for w in ("client", "conn") for e in ("ok", "mine", "drop", "html")]
    out += [["sealed", k] for k in ("401", "refuse", "readtimeout", "conntimeout", "reset", "chunked", "late")]
    out += [["debug", n, k] for n in list(PSCENES) + list(CSCENES) for k in ("none", "fault", "read", "relates")]
    if tier == "thorough":
        out = [["two", n, k, a] for n in list(PSCENES) + list(CSCENES) for k in ("fault", "conn", "read", "html") for a in (False, True)] + out
    return out


def run_case(case, rep):
    global BIG
    kind = case[0]
    big = os.environ.get("VERIF_TIER") == "thorough"
    if big:
        BIG = 9000

    def one(fn, *args):
        rep.execute(lambda: fn(*args), case=case, choices=lambda: repr(args))
    if kind == "one":
        _, n, k, a = case
        want, actions = base(n)
        for i, (act, cid) in enumerate(actions):
            if k == "cut" and act != "Receive" or k == "soap-empty" and act in ("Receive", "Enumerate", "Get"):
                continue
            if k == "read" and a and act == "Receive":
                continue
            one(run, n, ((i, k, a),))
    elif kind == "debug":
        _, n, k = case
        want, actions = base(n)
        log = logging.getLogger("pypsrp")
        keep = log.level, log.propagate, logging.root.manager.disable
        handler = Formatting()
        log.addHandler(handler)
        log.setLevel(logging.DEBUG)
        log.propagate = False
        logging.disable(logging.NOTSET)
        try:
            if k == "none":
                one(debug, n)
            else:
                for i, (act, cid) in enumerate(actions):
                    if k != "read" or act != "Receive":
                        one(run, n, ((i, k, True),))
        finally:
            log.removeHandler(handler)
            log.setLevel(keep[0])
            log.propagate = keep[1]
            logging.disable(keep[2])
        need(handler.count, "nothing was logged", "debug log")
    elif kind == "two":
        _, n, k, a = case
        want, actions = base(n)
        for i in range(len(actions)):
            for j in range(i + 1, len(actions) + 3):
                if k == "read" and a and j < len(actions) and actions[j][0] == "Receive":
                    continue
                one(run, n, ((i, "read", False), (j, k, a)))
    elif kind == "ctx":
        _, n, k, a = case
        context(n, [(999, k, a)], False)
        actions = _base[("ctx", n, os.getpid())][1]
        for i in range(len(actions)):
            if k == "read" and a and actions[i] == "Receive":
                continue
            for dead in (False, True):
                one(context, n, [(i, k, a)], dead)
    elif kind == "released":
        for at in range(1, 14) if case[2] in ("drop", "html") else (99,):
            one(released, case[1], case[2], at)
    elif kind == "user":
        one(user_error)
    elif kind == "sealed":
        total = sealed(None, None)[0]
        for at in range(total):
            one(sealed, at, case[1])
