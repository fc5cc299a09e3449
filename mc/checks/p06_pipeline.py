"""P06: explicit-state model of the pipeline lifecycle, including stop, reuse, disconnect and nesting, replayed on the real client."""
import itertools
import os

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P06"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state search of the pipeline lifecycle model, every path to the bound (from several prior histories) replayed on the real client against the reference server"
LEVEL_NOTE = "All operation histories to the stated depth from each listed prior history, plus search to closure over model states; each step compares state, exception, signals and command ids."
RULE = "one evaluation = one operation history on one pipeline object, replayed on fresh objects; non-trivial when the pipeline was started"
ASSUMPTIONS = ["the server accepts a signal only for a command id it issued or accepted", "a pipeline object is closed before it is invoked again, and once per invocation"]

NS, RUN, STOPPED, DONE, FAILED, DISC = 0, 1, 3, 4, 5, 6
FINAL = (STOPPED, DONE, FAILED)
OPS = ["begin_ok", "begin_fail", "begin_hang", "invoke_ok", "begin_empty", "poll", "end", "stop", "close", "connect", "nested", "pool_disconnect", "pool_connect", "with_close"]


class Srv(server.FullServer):
    def on_pipe_message(self, sh, p, m):
        if m.type != wire.CREATE_PIPELINE:
            return
        cmd = server.commands(p.created)[0]["Cmd"]
        p.nested = clixml.plain(p.created)["IsNested"], clixml.plain(p.created)["PowerShell"]["IsNested"]
        if cmd == "ok":
            self.send(sh, p, wire.OUTPUT, clixml.S("o1"))
            self.send(sh, p, wire.OUTPUT, clixml.S("o2"))
            self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(4))
        elif cmd == "fail":
            self.send(sh, p, wire.OUTPUT, clixml.S("o1"))
            self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(5, "boom"))
        elif cmd == "nested":
            self.send(sh, p, wire.OUTPUT, clixml.S("n"))
            self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(4))

    def on_Command(self, req):
        n = len([r for r in self.log if r.action == "Command"])
        if self.command_ids == "fresh":
            pass
        return super().on_Command(req)


def script(mode):
    return {"ok": [None, None, DONE], "fail": [None, FAILED], "hang": []}[mode]


def replay(hist, ids):
    from pypsrp.exceptions import InvalidPipelineStateError, InvalidPSRPOperation
    from pypsrp.powershell import PowerShell
    s = Srv()
    s.command_ids = ids
    s.install(horizon=300)
    p = drive.pool()
    p.open()
    sh = list(s.shells.values())[0]
    ps = PowerShell(p)
    st, closed, pool_ok, mode, left, cmd, fromdisc, out, errs = NS, True, True, None, [], None, False, [], 0
    started = 0
    for op in hist:
        n = len(s.log)
        where = "%s in state %d" % (op, st)
        if op == "pool_disconnect":
            if not pool_ok:
                return None
            p.disconnect()
            pool_ok = False
            if st == RUN:
                st = DISC
            same(int(ps.state), st, "state after %s" % where)
            same([r.action for r in s.log[n:]], ["Disconnect"], "requests of %s" % where)
            continue
        if op == "pool_connect":
            if pool_ok:
                return None
            p.connect()
            pool_ok = True
            same(int(ps.state), st, "state after %s" % where)
            continue
        valid, reqs, nst = True, [], st
        if op.startswith(("begin", "invoke")):
            if not pool_ok or (st in FINAL and not closed):
                return None  # the documented way to reuse is to close first
            valid = st in (NS,) + FINAL
            if op == "begin_empty":
                need_err = InvalidPSRPOperation if valid else InvalidPipelineStateError
        elif op == "poll":
            if st != RUN or mode == "hang" and not left:
                return None
        elif op == "end":
            if st == RUN and mode == "hang":
                return None
            if not pool_ok and st == RUN:
                return None
        elif op == "stop":
            valid = st in (RUN, STOPPED)
            reqs = ["Signal"] if st == RUN else []
            nst = STOPPED if st == RUN else st
        elif op in ("close", "with_close"):
            if st in FINAL and (closed or not pool_ok):
                return None
            valid = st == NS or st in FINAL
            reqs = ["Signal"] if st in FINAL else []
        elif op == "connect":
            if st == DISC and not pool_ok:
                return None
            valid = st == DISC
            reqs = ["Connect"] if valid else []
            nst = RUN if valid else st
        elif op == "nested":
            if st == RUN and not pool_ok:
                return None
            valid = st == RUN and not fromdisc
        got, err = "ok", None
        try:
            if op.startswith(("begin", "invoke")):
                ps.clear_commands()
                if op != "begin_empty":
                    ps.add_script(op.split("_")[1])
                if op == "begin_empty" and valid and (out or errs or True):
                    pass
                if valid and op != "begin_empty":
                    ps.clear_streams()
                res = ps.invoke() if op == "invoke_ok" else ps.begin_invoke()
            elif op == "poll":
                ps.poll_invoke()
            elif op == "end":
                res = ps.end_invoke()
            elif op == "connect":
                ps.connect_async()
            elif op == "nested":
                nested = ps.create_nested_power_shell()
            elif op == "with_close":
                with ps as x:
                    need(x is ps, "the context value is not the pipeline")
            else:
                getattr(ps, op)()
        except (InvalidPipelineStateError, InvalidPSRPOperation) as e:
            got, err = "invalid", e
        acts = [r.action for r in s.log[n:]]
        if op == "begin_empty":
            same(got, "invalid", "invoking without commands in state %d" % st)
            need(isinstance(err, need_err), "invoking without commands in state %d raised %r" % (st, err))
            same(acts, [], "requests of %s" % where)
            same(int(ps.state), st, "state after %s" % where)
            continue
        same(got, "ok" if valid else "invalid", "outcome of %s (%r)" % (where, err), "outcome of %s" % where)
        if not valid:
            same(acts, [], "a refused %s contacted the server" % where)
            if not (op == "nested" and st == RUN):
                need(isinstance(err, InvalidPipelineStateError), "refused %s raised %r" % (where, err))
                same(int(err.current_state), st, "state named by the error of %s" % where)
            same(int(ps.state), st, "state after a refused %s" % where)
            continue
        if op.startswith(("begin", "invoke")):
            started += 1
            mode = op.split("_")[1]
            left = script(mode)
            closed, out, errs, nst, fromdisc = False, [], 0, RUN, False
            same(acts.count("Command"), 1, "Command requests of %s" % where)
            cmd = s.log[n + acts.index("Command")].pipe
            if op == "invoke_ok":
                left, nst, out = [], DONE, ["o1", "o2"]
                same(list(res), out, "output of invoke")
            else:
                same(acts, ["Command"], "requests of %s" % where)
        elif op == "poll":
            same(acts, ["Receive"], "requests of %s" % where)
            same(s.log[-1].command_id, cmd.id, "command polled")
            x = left.pop(0)
            if x is None:
                out.append("o%d" % (len(out) + 1))
            else:
                nst = x
        elif op == "end":
            same(sorted(set(acts)), ["Receive"] if st == RUN else [], "requests of %s" % where)
            if st == RUN:
                while left:
                    x = left.pop(0)
                    if x is None:
                        out.append("o%d" % (len(out) + 1))
                    else:
                        nst = x
            same(list(res), out, "output of end_invoke", "output of end_invoke")
        elif op == "nested":
            same(acts, [], "requests of creating a nested pipeline")
            nested.add_script("nested")
            same(nested.invoke(), ["n"], "output of the nested pipeline")
            np = [r.pipe for r in s.log[n:] if r.action == "Command"][0]
            same(np.nested, (True, True), "nested flags sent")
            same(int(nested.state), DONE, "state of the nested pipeline")
            nested.close()
            same([(r.command_id or r.body.find("rsp:Signal", server.NS).attrib["CommandId"]) for r in s.log if r.action == "Signal"][-1], np.id, "command closed by the nested pipeline")
        else:
            same(acts, reqs, "requests of %s" % where)
            if op == "stop" and reqs:
                same(cmd.signals, ["powershell/signal/ctrl_c"], "signals of the stopped command")
                left = []
            if op in ("close", "with_close") and reqs:
                need(cmd.signals and cmd.signals[-1].endswith("signal/Terminate"), "close sent %r" % (cmd.signals,))
                same(len([x for x in cmd.signals if x.endswith("Terminate")]), 1, "terminate signals")
                closed = True
            if op == "connect":
                c = s.log[-1].body.find("rsp:Connect", server.NS).attrib["CommandId"]
                same(c, cmd.id, "command named by connect")
                fromdisc = True
        st = nst
        same(int(ps.state), st, "state after %s" % where)
        same(list(ps.output), out, "output after %s" % where)
        if started:
            same(bool(ps.had_errors), st == FAILED, "had_errors after %s" % where, "had_errors is stale")
            same([str(e) for e in ps.streams.error], ["boom"] if st == FAILED else [], "error stream after %s" % where)
    need(not s.errors, "server errors: %r" % s.errors, "server errors: %s" % (s.errors[:1],))
    return (st, closed, pool_ok, mode if st in (RUN, DISC) else None, len(left), fromdisc, min(started, 2), bool(ps.had_errors))


PRIORS = [
    [], ["invoke_ok"], ["invoke_ok", "close"], ["begin_fail", "end", "close"], ["begin_hang", "stop", "close"], ["begin_ok", "poll"],
    ["begin_ok", "poll", "pool_disconnect"], ["begin_ok", "pool_disconnect", "pool_connect", "connect"], ["begin_hang"],
    ["begin_ok", "pool_disconnect", "pool_connect", "connect", "end", "close"], ["begin_fail", "end"], ["begin_hang", "nested"],
]


def cases(tier):
    d = 4 if tier == "thorough" else 3
    out = []
    for ids in ("same", "server"):
        out.append(["bfs", ids])
        for i in range(len(PRIORS)):
            for a in OPS:
                out.append(["all", ids, i, a, d if tier == "thorough" or i == (0 if ids == "same" else 2) else 2])
    return out


def run_case(case, rep):
    if case[0] == "bfs":
        def step(h):
            r = replay(h, case[1])
            return (("skip",), []) if r is None else (r, OPS)
        core.bfs(rep, [], OPS, step, case=case, max_depth=9 if os.environ.get("VERIF_TIER") == "thorough" else 6, max_states=4000)
        return
    _, ids, i, a, d = case
    dead = set()
    for n in range(0, d):
        for rest in itertools.product(OPS, repeat=n):
            hist = [a] + list(rest)
            if any(tuple(hist[:k]) in dead for k in range(1, len(hist) + 1)):
                continue
            full = PRIORS[i] + hist
            box = {}

            def fn():
                box["r"] = replay(full, ids)
                return (tuple(full), box["r"]), len(full) > 0
            rep.execute(fn, case=case, choices=lambda: full)
            rep.transitions += len(full)
            rep.traces += 1
            if "r" in box and box["r"] is None:
                dead.add(tuple(hist))
