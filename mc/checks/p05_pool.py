"""P05: explicit-state model of the runspace pool lifecycle; every model transition is replayed on the real client and server."""
import itertools
import os

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P05"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state search of the pool lifecycle model, every path to the bound replayed on the real client against the reference server and compared step by step"
LEVEL_NOTE = ("All operation histories to the stated depth (every sequence, not one per state) plus a search to closure over model states; each step compares state, exception and the "
              "requests seen by the server. Assumes the reference server answers like Windows.")
RULE = "one evaluation = one operation history replayed on fresh objects; non-trivial when it has at least one operation"
ASSUMPTIONS = ["one client at a time operates the pool", "after connecting from a new client the server reports the pool state"]

BEFORE, OPENED, CLOSED, BROKEN, DISC = 0, 2, 3, 5, 9
OPS = ["open", "open_broken", "close", "connect", "disconnect", "reset", "reset_broken", "reset_closed", "metadata", "setmax", "invoke", "with"]


class Srv(server.FullServer):
    """A pool report (broken / closed) is sent in place of the next control answer or at opening."""
    report = None

    def opened(self, sh):
        if self.report:
            sh.opened = True
            self.send(sh, None, wire.SESSION_CAPABILITY, clixml.session_capability(self.protocol))
            self.send(sh, None, wire.POOL_STATE, clixml.pool_state(self.report, clixml.error_record("no more", name="ExceptionAsErrorRecord", refid=1)))
            self.report = None
            return
        super().opened(sh)

    def on_pool_other(self, sh, m):
        if self.report:
            r, self.report = self.report, None
            self.send(sh, None, wire.POOL_STATE, clixml.pool_state(r, clixml.error_record("gone", name="ExceptionAsErrorRecord", refid=1) if r == BROKEN else None))
            if r == CLOSED:
                sh.gone_after = len(sh.out)
            return
        super().on_pool_other(sh, m)

    def receive(self, req, sh, p):
        if p is None and getattr(sh, "gone_after", None) is not None and not sh.out:
            raise server.Fault(server.UNEXPECTED_SELECTORS, "the shell was closed")
        return super().receive(req, sh, p)


def expect(st, op, mine):
    """-> (new state, outcome, set of request actions that must be seen exactly once, other actions allowed)

    outcome: 'ok', 'invalid' (InvalidRunspacePoolStateError), 'error' (any other error)."""
    name = op
    if name == "with":
        # open (when possible) and leave the context
        if st == BEFORE:
            return CLOSED, "ok", ["Create", "Delete"], ["Receive"]
        if st == OPENED:
            return CLOSED, "ok", ["Delete"], []
        return st, "invalid", [], []
    if name in ("open", "open_broken"):
        if st == OPENED:
            return st, "ok", [], []
        if st == BEFORE:
            return (OPENED, "ok", ["Create"], ["Receive"]) if name == "open" else (BROKEN, "error", ["Create"], ["Receive"])
        return st, "invalid", [], []
    if name == "close":
        if st in (CLOSED, BROKEN):
            return st, "ok", [], []
        if st == BEFORE:
            return CLOSED, "ok", [], []
        return CLOSED, "ok", ["Delete"], []
    if name == "connect":
        if st == OPENED:
            return st, "ok", [], []
        if st == DISC:
            return OPENED, "ok", ["Reconnect"] if mine else ["Connect"], ["Receive"]
        return st, "invalid", [], []
    if name == "disconnect":
        if st == DISC:
            return st, "ok", [], []
        if st == OPENED:
            return DISC, "ok", ["Disconnect"], []
        return st, "invalid", [], []
    if name.startswith("reset"):
        if st == BEFORE:
            return st, "ok", [], []
        if st != OPENED:
            return st, "invalid", [], []
        if name == "reset":
            return OPENED, "ok", ["Send"], ["Receive"]
        if name == "reset_broken":
            return BROKEN, "error", ["Send"], ["Receive"]
        return CLOSED, "error", ["Send"], ["Receive"]
    if name == "metadata":
        if st != OPENED:
            return st, "invalid", [], []
        return st, "ok", ["Command"], ["Receive"]
    raise core.HarnessError(op)


def replay(hist, found):
    """Run the history on the real code next to the model; returns the canonical state."""
    from pypsrp.exceptions import InvalidRunspacePoolStateError
    from pypsrp.powershell import PowerShell, RunspacePool
    s = Srv()
    s.install(horizon=600)
    conn = server.connection()
    if found:
        other = drive.pool(conn=server.connection())
        other.open()
        other.disconnect()
        pools = RunspacePool.get_runspace_pools(conn)
        same(len(pools), 1, "pools discovered")
        p = pools[0]
        st, mine = DISC, False
    else:
        p = drive.pool(conn=conn)
        st, mine = BEFORE, True
    same(int(p.state), st, "initial state")
    lim = p.max_runspaces
    for i, op in enumerate(hist):
        n = len(s.log)
        where = "%s in state %d" % (op, st)
        if op == "invoke":
            if st == OPENED:
                ps = PowerShell(p)
                ps.add_script("x")
                same(ps.invoke(), ["out"], "output of a pipeline on an open pool")
                same(int(p.state), st, "state after an invocation")
            continue
        if op == "setmax":
            lim += 1
            p.max_runspaces = lim
            acts = [r.action for r in s.log[n:]]
            same(acts.count("Send"), 1 if st == OPENED else 0, "requests of a limit change in state %d" % st)
            if st != OPENED:
                same(acts, [], "requests of a limit change in state %d" % st)
            same(int(p.state), st, "state after a limit change")
            same(p.max_runspaces, lim, "limit after the change")
            continue
        want, outcome, once, allowed = expect(st, op, mine)
        s.report = {"open_broken": BROKEN, "reset_broken": BROKEN, "reset_closed": CLOSED}.get(op) if outcome == "error" else None
        got, err = "ok", None
        try:
            if op in ("open", "open_broken"):
                p.open()
            elif op == "with":
                with p as q:
                    need(q is p, "the context value is not the pool")
                    same(int(p.state), OPENED, "state inside the context")
            elif op.startswith("reset"):
                p.reset_runspace_state()
            elif op == "metadata":
                p.get_command_metadata("*")
            else:
                getattr(p, op)()
        except InvalidRunspacePoolStateError as e:
            got, err = "invalid", e
        except Exception as e:
            got, err = "error", e
        same(got, outcome, "outcome of %s (%r)" % (where, err), "outcome of %s" % where)
        same(int(p.state), want, "state after %s" % where)
        acts = [r.action for r in s.log[n:]]
        for a in once:
            same(acts.count(a), 1, "%s requests of %s" % (a, where))
        extra = [a for a in acts if a not in once and a not in allowed]
        same(extra, [], "unexpected requests of %s" % where)
        if got == "invalid":
            same(acts, [], "a refused %s contacted the server" % where)
            same(int(err.current_state), st, "state named by the error of %s" % where)
        if op == "connect" and st == DISC:
            mine = True
        st = want
    same(s.errors, [], "server errors")
    same(s.oversize, [], "oversized requests")
    dels = sum(1 for r in s.log if r.action == "Delete")
    need(dels <= 1, "the server's pool was deleted %d times" % dels)
    sh = list(s.shells.values())
    if st == CLOSED and sh and not getattr(sh[0], "gone_after", None):
        need(sh[0].closed, "the pool is closed but the server's shell is not released")
    return (st, mine, lim > 1, dels, len(sh) and sh[0].state)


def cases(tier):
    d = 4 if tier == "thorough" else 3
    out = []
    for found in (False, True):
        out.append(["bfs", found])
        for a in OPS:
            for b in OPS:
                out.append(["all", found, a, b, d])
    return out


def run_case(case, rep):
    if case[0] == "bfs":
        core.bfs(rep, [], OPS, lambda h: (replay(h, case[1]), OPS), case=case, max_depth=8)
        return
    _, found, a, b, d = case
    for n in range(0, d - 1):
        for rest in itertools.product(OPS, repeat=n):
            hist = [a, b] + list(rest)
            rep.transitions += len(hist)
            rep.traces += 1
            rep.execute(lambda: ((hist, replay(hist, found)), True), case=case, choices=lambda: hist)
