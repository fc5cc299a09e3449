"""P08: pool control requests get their own answer, whatever else arrives or fails."""
import itertools
import os

import requests

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P08"
LEVEL = "exploration"
TECHNIQUE = "stateless exploration of sequences of control requests against every combination of server answers, interleaved traffic, timed-out polls, faults and late answers, with an independent model of the limits"
LEVEL_NOTE = "Complete for all request sequences up to length 2 with every answer/traffic/failure combination within the deviation bound, and length 3 with fewer deviations; histories of up to 300 requests after one whose answer comes late."
RULE = "one evaluation = one sequence of control requests with one choice of server behaviour per request; non-trivial when some answer is refused, delayed, mixed or failed"
ASSUMPTIONS = ["one request is in progress at a time on a pool"]

OPS = ["min", "max", "avail", "reset"]
TYPE = {wire.SET_MIN: "min", wire.SET_MAX: "max", wire.GET_AVAILABLE: "avail", wire.RESET_RUNSPACE_STATE: "reset"}
ANSWERS = ["ok", "refuse"]
BEFORE = ["none", "event", "timeout", "pipe", "host", "foreign", "two"]
FAIL = ["no", "receive", "send", "reset-after"]
NUMBERS = [7, 0, 1, 2 ** 33]


class Srv(server.FullServer):
    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        self.seen = []
        self.plan = None
        self.batch = False
        self.failed = None
        self.traffic = 0
        self.quiet = 0

    def event(self, sh, eid=1):
        self.traffic += 1
        self.send(sh, None, wire.USER_EVENT, clixml.user_event(eid))

    def on_pool_other(self, sh, m):
        d = clixml.plain(clixml.decode(m.body))
        kind = TYPE.get(m.type)
        if kind is None:
            self.errors.append("unexpected message %#x" % m.type)
            return
        ci = server.ci_of(d)
        self.seen.append((kind, ci, d))
        ans = self.ctx.pick(NUMBERS if kind == "avail" else [True, False], "answer")
        before = self.ctx.pick(BEFORE, "before")
        fail = self.ctx.pick(["no", "receive", "late"], "fail")
        self.batch = bool(self.ctx.choose(2, "batched"))
        if before == "event" or before == "two":
            self.event(sh)
        if before == "two":
            self.event(sh, 2)
        if before == "timeout":
            self.quiet = 2
        if before == "host":
            self.send(sh, None, wire.POOL_HOST_CALL, clixml.host_call(3, 16, "WriteLine2", "<S>hi</S>"))
        if before == "foreign":
            self.send(sh, None, wire.AVAILABILITY, clixml.availability(False, 990 + ci))
        if before == "pipe":
            self.send(sh, None, wire.APP_PRIVATE, clixml.app_private((("K", "again"),)))
        answer = clixml.availability(ans, ci)
        self.plan = (ans, fail)
        if fail == "late":
            self.failed = (sh, answer)  # delivered with the traffic of the next request
        else:
            late, self.failed = self.failed, None
            if late:
                self.send(late[0], None, wire.AVAILABILITY, late[1])
            self.send(sh, None, wire.AVAILABILITY, answer)

    def receive(self, req, sh, p):
        if p is None and self.plan is not None:
            if self.quiet:
                self.quiet -= 1
                raise server.Fault(server.TIMEDOUT, "timed out")
            if self.plan[1] in ("receive", "late"):
                self.plan = (self.plan[0], "done")
                raise server.Fault(server.ACCESS_DENIED, "receive failed")
            if self.batch:
                out = list(sh.out)
                sh.out.clear()
                if out:
                    return self.stream_body(out)
        return super().receive(req, sh, p)


def run(ctx, ops, proto):
    from pypsrp.exceptions import InvalidPSRPOperation, WSManFaultError
    s = Srv(ctx)
    s.protocol = proto
    s.install(horizon=200)
    calls = []
    h = drive.host()
    h.ui.WriteLine2 = lambda rs, pl, value=None: calls.append(value)
    p = drive.pool(host=h)
    p.open()
    lim = {"min": 1, "max": 1}
    cis = []
    nontrivial = False
    for i, op in enumerate(ops):
        n, k = len(s.log), len(s.seen)
        s.plan = None
        got, err, val = "ok", None, 10 + i
        try:
            if op == "min":
                p.min_runspaces = val
            elif op == "max":
                p.max_runspaces = val
            elif op == "same":
                p.min_runspaces = lim["min"]
                p.max_runspaces = lim["max"]
            elif op == "avail":
                res = p.get_available_runspaces()
            else:
                p.reset_runspace_state()
        except InvalidPSRPOperation as e:
            got, err = "refused", e
        except WSManFaultError as e:
            got, err = "fault", e
        acts = [r.action for r in s.log[n:]]
        if op == "same" or op == "reset" and proto == "2.2":
            same(got, "ok" if op == "same" else "refused", "outcome of %s" % op)
            same(acts, [], "requests of %s" % op)
            continue
        same(len(s.seen), k + 1, "requests received for one %s" % op)
        kind, ci, d = s.seen[-1]
        same(kind, op, "kind of request sent")
        need(ci not in cis, "call id %r used twice" % ci)
        cis.append(ci)
        if op in ("min", "max"):
            same(d["MinRunspaces" if op == "min" else "MaxRunspaces"], val, "value requested")
        ans, fail = s.plan
        if fail == "done":
            nontrivial = True
            same(got, "fault", "outcome of a %s whose receive failed" % op)
        elif op == "avail":
            same(got, "ok", "outcome of a query (%r)" % err)
            same((type(res).__name__, res), ("int", ans), "number of available runspaces")
        else:
            nontrivial = nontrivial or not ans
            same(got, "ok" if ans else "refused", "outcome of a %s answered %s (%r)" % (op, ans, err), "outcome of %s does not follow its own answer" % op)
            if ans and op != "reset":
                lim[op] = val
        same((p.min_runspaces, p.max_runspaces), (lim["min"], lim["max"]), "visible limits after %s" % op)
        same(int(p.state), 2, "pool state after %s" % op)
    same(s.errors, [], "server errors")
    # everything else that arrived must have been handled: drain by one more query
    ctx2, s.ctx = s.ctx, core.Ctx()
    s.plan = None
    same(p.get_available_runspaces(), 7, "a query after all of it")
    same(len(p.user_events), s.traffic, "user events delivered", "other traffic lost around a control request")
    same((p.min_runspaces, p.max_runspaces), (lim["min"], lim["max"]), "visible limits at the end")
    return (tuple(ops), proto, tuple(ctx.choices)), nontrivial or any(ctx.choices)


def cases(tier):
    out = []
    for n in (1, 2):
        for ops in itertools.product(OPS, repeat=n):
            out.append(["run", list(ops), "2.3"])
    for ops in itertools.product(OPS, repeat=3):
        if tier == "thorough" or ops[0] != ops[1] and ops[2] == ops[0]:
            out.append(["run", list(ops), "2.3"])
    for ops in (["same"], ["max", "same"], ["reset", "max"], ["same", "avail", "same"]):
        out.append(["run", ops, "2.2"])
    out.append(["preopen"])
    out += [["many", list(k)] for n in (1, 2) for k in itertools.permutations(["min", "max", "avail", "reset"], n)]
    return out


def preopen():
    """Limits set before opening travel in the opening message and cost no request."""
    for mn, mx in ((1, 1), (2, 5), (5, 5), (0, 3)):
        s = server.FullServer()
        s.install()
        p = drive.pool()
        p.min_runspaces = mn
        p.max_runspaces = mx
        same(len(s.log), 0, "requests before opening")
        p.open()
        d = clixml.plain(list(s.shells.values())[0].init)
        same((d["MinRunspaces"], d["MaxRunspaces"]), (mn, mx), "limits sent when opening")
        same((p.min_runspaces, p.max_runspaces), (mn, mx), "visible limits")
        same(s.control, [], "control requests")
    return ("preopen",), True


OWN = {"min": True, "max": True, "avail": 7, "reset": True}
STALE = {"min": False, "max": False, "avail": 3, "reset": False}


def many(kinds, gap):
    """a request fails, the answer to it arrives with the gap-th request after it; hundreds of requests in between"""
    class S(server.FullServer):
        seen, fail, late, held = [], False, None, []

        def on_pool_other(self, sh, m):
            d = clixml.plain(clixml.decode(m.body))
            kind, ci = TYPE.get(m.type), server.ci_of(d)
            self.seen.append(ci)
            if self.fail:
                self.held, self.fail, self.stop = [clixml.availability(STALE[kind], ci)], False, True
                return
            if len(self.seen) == gap + 1:
                for a in self.held:
                    self.send(sh, None, wire.AVAILABILITY, a)
            self.send(sh, None, wire.AVAILABILITY, clixml.availability(OWN[kind], ci))
        stop = False

        def receive(self, req, sh, p):
            if p is None and self.stop:
                self.stop = False
                raise server.Fault(server.ACCESS_DENIED, "receive failed")
            return super().receive(req, sh, p)
    from pypsrp.exceptions import WSManFaultError
    s = S()
    s.seen = []
    s.install(horizon=4000)
    p = drive.pool()
    p.open()
    s.fail = True
    for i in range(gap + 1):
        op = kinds[i % len(kinds)]
        try:
            if op == "avail":
                got = p.get_available_runspaces()
                same((type(got).__name__, got), ("int", 7), "answer of request %d" % i, "answer of another request")
            elif op == "reset":
                p.reset_runspace_state()
            else:
                setattr(p, op + "_runspaces", 10 + i)
                same(getattr(p, op + "_runspaces"), 10 + i, "limit after request %d" % i, "limit after a request")
            need(i > 0, "the request whose receive failed returned", "failed receive ignored")
        except WSManFaultError:
            need(i == 0, "request %d fails" % i, "request fails")
    same(len(set(s.seen)), gap + 1, "number of different call ids in %d requests" % (gap + 1), "call id used twice")
    same(s.errors, [], "server errors")
    return ("many", tuple(kinds), gap), True


def run_case(case, rep):
    if case[0] == "many":
        for gap in list(range(1, 18)) + [63, 64, 127, 128, 255, 256, 300]:
            rep.execute(lambda: many(case[1], gap), case=case, choices=lambda: gap)
        return
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    if case[0] == "preopen":
        rep.execute(preopen, case=case)
        return
    n = len(case[1])
    bound = (9 if n == 1 else 4 if n == 2 else 3) if thorough else (9 if n == 1 else 2)
    core.explore(lambda ctx: run(ctx, case[1], case[2]), rep, bound=bound, cap=80000, case=case)
