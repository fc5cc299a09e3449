"""P07: disconnecting and reconnecting, at any point and from any client, loses nothing."""
import itertools
import os

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P07"
LEVEL = "exploration"
TECHNIQUE = "stateless exploration of all schedules of polls, timeouts, disconnects, same-client reconnects and hand-overs to a discovering client, on the real client against the reference server"
LEVEL_NOTE = "All schedules of one or two pipelines with up to the stated number of deviations (every single and double disconnect point), and all discovery listings of up to three pools with up to two commands."
RULE = "one evaluation = one schedule of polls and disconnects, or one discovery listing; non-trivial when the pool is disconnected at least once"
ASSUMPTIONS = ["the server keeps undelivered messages of a disconnected pool and delivers them after the connect", "a message is not cut across a hand-over to another client"]

SCRIPTS = [
    [("O", "a1"), ("E", "e1"), ("O", "a2"), ("F", None)],
    [("O", "b1"), ("W", "w1"), ("O", "b2"), ("X", "boom")],
    [("O", "c1"), ("H", "prompt"), ("O", "c2"), ("F", None)],
]


class Srv(server.FullServer):
    cut = None

    def __init__(self, **kw):
        super().__init__(**kw)
        self.asked = {}

    def on_pipe_message(self, sh, p, m):
        if m.type != wire.CREATE_PIPELINE:
            return
        p.script = list(SCRIPTS[int(server.commands(p.created)[0]["Cmd"])])
        self.emit(sh, p)

    def emit(self, sh, p):
        while p.script:
            k, t = p.script.pop(0)
            if k == "O":
                self.send(sh, p, wire.OUTPUT, clixml.S(t), frag_size=self.cut)
            elif k == "E":
                self.send(sh, p, wire.ERROR, clixml.error_record(t), frag_size=self.cut and 300)
            elif k == "W":
                self.send(sh, p, wire.WARNING, clixml.info_record("Warning", t))
            elif k == "F":
                self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(4))
            elif k == "X":
                self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(5, t))
            elif k == "H":
                self.send(sh, p, wire.PIPE_HOST_CALL, clixml.host_call(21, 11, "ReadLine", ""))
                return

    def on_host_response(self, sh, m):
        for p in sh.pipes.values():
            if p.pid == m.pid:
                p.answer = clixml.plain(clixml.decode(m.body))
                self.emit(sh, p)
                return
        self.errors.append("host response for an unknown pipeline")

    def receive(self, req, sh, p):
        if sh.state != "Connected" or p is not None and not p.connected:
            self.errors.append("Receive on a disconnected %s" % ("pool" if p is None else "pipeline"))
            raise server.Fault(server.ACCESS_DENIED, "disconnected")
        return super().receive(req, sh, p)

    def sizes(self, sh):
        return (2, 7)

    def on_Connect(self, req):
        n = [x for x in self.shell_for(req).out]
        body = super().on_Connect(req)
        if getattr(self, "no_state", False) and req.body.find("rsp:Connect", server.NS).attrib.get("CommandId") is None:
            sh = req.shell
            sh.out.clear()
            sh.out.extend(n)
            self.send(sh, None, wire.APP_PRIVATE, clixml.app_private())
        return body


def run(ctx, which, ids, cut, rep):
    from pypsrp.powershell import PowerShell, RunspacePool
    s = Srv()
    s.command_ids = ids
    s.cut = cut
    s.install(horizon=600)
    host = drive.host(read_line="answer")
    pool = drive.pool(host=host)
    pool.open()
    objs = []
    for w in which:
        ps = PowerShell(pool)
        ps.add_script(str(w))
        ps.begin_invoke()
        objs.append(ps)
    sh = list(s.shells.values())[0]
    pipes = list(sh.pipes.values())
    got = [dict(O=[], E=[], W=[]) for _ in which]
    cycles, steps, moved = 0, 0, []

    def take(i):
        ps = objs[i]
        got[i]["O"] += list(ps.output)
        got[i]["E"] += [str(e) for e in ps.streams.error]
        got[i]["W"] += [str(e.message) for e in ps.streams.warning]
    finals = [None] * len(which)
    while any(int(o.state) == 1 for o in objs):
        live = [i for i, o in enumerate(objs) if int(o.state) == 1]
        opts = [("poll", i) for i in live]
        if cycles < 2:
            opts += ["same", "new"] if cut is None else ["same"]
        o = ctx.pick(opts, "step")
        if o[0] == "poll":
            objs[o[1]].poll_invoke()
            continue
        cycles += 1
        was = [int(x.state) for x in objs]
        pool.disconnect()
        same(int(pool.state), 9, "pool state after disconnect")
        for x, b in zip(objs, was):
            same(int(x.state), 6 if b == 1 else b, "pipeline state after disconnect")
        if o == "same":
            n = len(s.log)
            pool.connect()
            same([r.action for r in s.log[n:] if r.action != "Receive"], ["Reconnect"], "requests of a reconnect")
            same({r.selectors.get("ShellId") for r in s.log[n:]}, {sh.id}, "shell addressed by the reconnect")
            same(int(pool.state), 2, "pool state after reconnect")
            back = [i for i in live]
            if ctx.choose(2, "order of pipeline connects") and len(back) > 1:
                back.reverse()
            for i in back:
                objs[i].connect_async()
                same(int(objs[i].state), 1, "pipeline state after connect")
        else:
            for i in live:
                take(i)
            conn = server.connection()
            pools = RunspacePool.get_runspace_pools(conn)
            same([x.id.upper() for x in pools], [sh.id.upper()], "pools discovered")
            pool = pools[0]
            pool.host = host
            same(int(pool.state), 9, "state of a discovered pool")
            n = len(s.log)
            pool.connect()
            same([r.action for r in s.log[n:] if r.action != "Receive"], ["Connect"], "requests of a connect")
            same({r.selectors.get("ShellId") for r in s.log[n:]}, {sh.id}, "shell addressed by the connect")
            same(int(pool.state), 2, "pool state after connecting to a discovered pool")
            same((pool.min_runspaces, pool.max_runspaces), (2, 7), "limits taken from the server")
            need(pool.application_private_data is not None, "application private data missing after connect")
            same(pool.protocol_version, "2.3", "protocol version after connect")
            found = {x._command_id if False else x.id.upper(): x for x in pool.create_disconnected_power_shells()}
            same(sorted(found), sorted(p.id.upper() for p in pipes if not p.terminated), "commands discovered")
            old, objs = objs, list(objs)
            for i in live:
                objs[i] = found[pipes[i].id.upper()]
                objs[i].connect_async()
                same(int(objs[i].state), 1, "pipeline state after connect")
                moved.append(i)
    for i, w in enumerate(which):
        objs[i].end_invoke()
        take(i)
        want = SCRIPTS[w]
        same(got[i]["O"], [t for k, t in want if k == "O"], "output across the disconnects", "output across the disconnects")
        same(got[i]["E"], [t for k, t in want if k in "EX" and t], "errors across the disconnects")
        same(got[i]["W"], [t for k, t in want if k == "W"], "warnings across the disconnects")
        same(int(objs[i].state), 5 if want[-1][0] == "X" else 4, "final state")
        same(bool(objs[i].had_errors), want[-1][0] == "X", "had_errors")
        if any(k == "H" for k, _ in want):
            same(pipes[i].answer["mr"], "answer", "answer to the prompt")
            same(pipes[i].answer["ci"], 21, "call id of the answer")
    same(s.errors, [], "server errors")
    n = len(s.log)
    pool.close()
    same([r.action for r in s.log[n:]], ["Delete"], "requests of the final close")
    need(sh.closed, "the server's pool is not released")
    return (tuple(which), ids, cut, tuple(ctx.choices)), cycles > 0


def listing(shape, late, rep, mode):
    """Discover `shape` (commands per pool), close / connect one of them, and check the addresses."""
    from pypsrp.powershell import PowerShell, RunspacePool
    s = Srv()
    s.command_ids = mode
    s.install(horizon=600)
    pools = []
    for n in shape:
        p = drive.pool(conn=server.connection())
        p.open()
        for _ in range(n):
            ps = PowerShell(p)
            ps.add_script("0")
            ps.begin_invoke()
        p.disconnect()
        pools.append(p)
    shells = list(s.shells.values())
    found = RunspacePool.get_runspace_pools(server.connection())
    same([x.id.upper() for x in found], [x.id.upper() for x in shells], "pools discovered")
    for x, sh in zip(found, shells):
        same(sorted(k.upper() for k in x.pipelines), sorted(sh.pipes), "commands of a discovered pool")
        same([int(y.state) for y in x.create_disconnected_power_shells()], [6] * len(sh.pipes), "states of discovered commands")
        need(all(y.runspace_pool is x for y in x.pipelines.values()), "a discovered command belongs to another pool")
    for i in late:
        n = len(s.log)
        found[i].connect()
        for ps in found[i].create_disconnected_power_shells():
            same(ps.connect(), ["a1", "a2"], "output of a discovered command")
        same({r.selectors.get("ShellId") for r in s.log[n:]}, {shells[i].id}, "shell addressed")
    for i in range(len(shape)):
        n = len(s.log)
        found[i].close()
        same([(r.action, r.selectors.get("ShellId")) for r in s.log[n:]], [("Delete", shells[i].id)], "close of a discovered pool")
    same(s.errors, [], "server errors")
    need(all(sh.closed for sh in shells), "a pool is left on the server")
    return (tuple(shape), tuple(late), mode), True


def nostate():
    from pypsrp.powershell import RunspacePool
    s = Srv()
    s.no_state = True
    s.install()
    p = drive.pool()
    p.open()
    p.disconnect()
    x = RunspacePool.get_runspace_pools(server.connection())[0]
    x.connect()
    same(int(x.state), 2, "pool state after connecting when the server sends no state message", "state after connect without a state message")
    return ("nostate",), True


def cases(tier):
    out = []
    for which in ([0], [1], [2], [0, 1], [1, 2]):
        for ids in ("same", "server"):
            for cut in (None, 50):
                if 2 in which and ids == "server":
                    continue
                out.append(["run", which, ids, cut])
    for n in range(0, 4):
        for shape in itertools.product((0, 1, 2), repeat=n):
            out.append(["list", list(shape)])
    out.append(["nostate"])
    return out


def run_case(case, rep):
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    if case[0] == "run":
        core.explore(lambda ctx: run(ctx, case[1], case[2], case[3], rep), rep, bound=5 if thorough else 3 if len(case[1]) == 1 else 2, cap=60000, case=case)
    elif case[0] == "list":
        idx = range(len(case[1]))
        for k in range(len(case[1]) + 1):
            for late in itertools.permutations(idx, k):
                for mode in ("same", "server"):
                    rep.execute(lambda: listing(case[1], late, rep, mode), case=case, choices=lambda: [list(late), mode])
    else:
        rep.execute(nostate, case=case)
