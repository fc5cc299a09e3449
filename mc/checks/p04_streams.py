"""P04: output and every stream arrive complete, in order, in the right place; the call ends exactly at the final state."""
import itertools
import os

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P04"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of server message sequences, final states, response groupings and poll outcomes, through every invocation interface of the real client"
LEVEL_NOTE = ("Complete for all sequences of record kinds up to length 3 (4 thorough), all final states, four interfaces and all delivery schedules of the listed sequences within the deviation bound; also 300 (thorough 2000) records of every kind, mixed, equal and null.")
RULE = "one evaluation = one invocation with one message sequence, final state, interface and delivery schedule; non-trivial when at least one record precedes the final state"
ASSUMPTIONS = ["the server sends one final pipeline state, last"]

KINDS = {
    "O": (wire.OUTPUT, lambda t: clixml.S(t)),
    "E": (wire.ERROR, lambda t: clixml.error_record(t)),
    "W": (wire.WARNING, lambda t: clixml.info_record("Warning", t)),
    "V": (wire.VERBOSE, lambda t: clixml.info_record("Verbose", t)),
    "D": (wire.DEBUG, lambda t: clixml.info_record("Debug", t)),
    "P": (wire.PROGRESS, lambda t: clixml.progress(t)),
    "I": (wire.INFORMATION, lambda t: clixml.information(t)),
    "U": (wire.USER_EVENT, lambda t: clixml.user_event(5, t)),
}
STREAM = {"E": "error", "W": "warning", "V": "verbose", "D": "debug", "P": "progress", "I": "information"}
FINALS = [(4, None), (5, "terminating"), (5, None), (3, None), (3, "stopped")]
FALSY = [("<Nil />", None), ("<I32>0</I32>", 0), ("<B>false</B>", False), ("<S></S>", ""), ('<Obj RefId="0"><TN RefId="0"><T>System.Collections.ArrayList</T><T>System.Object</T></TN><LST /></Obj>', []), ('<Obj RefId="0"><TN RefId="0"><T>System.Collections.Hashtable</T><T>System.Object</T></TN><DCT /></Obj>', {})]
IFACES = ["invoke", "end", "poll", "mixed"]


class Srv(server.ScriptServer):
    def __init__(self, script, group="each", ctx=None):
        super().__init__(script)
        self.group, self.ctx, self.quiet = group, ctx, 0

    def take(self, req, q):
        if not q:
            return []
        if self.group == "each" or req.command_id is None and self.ctx is None:
            return [q.popleft()]
        if self.group == "all":
            out = list(q)
            q.clear()
            return out
        if self.group == "joined":
            out = b"".join(q)
            q.clear()
            return [out]
        o = self.ctx.pick(["one", "timeout", "empty"] + list(range(2, len(q) + 1)), "poll")
        if o == "one":
            return [q.popleft()]
        if o == "timeout":
            return []
        if o == "empty":
            raise server.Raw(200, self.envelope(req, "<rsp:ReceiveResponse/>"))
        return [q.popleft() for _ in range(o)]


def text_of(k, r):
    if k == "P":
        return r.activity
    if k == "I":
        return str(r.message_data)
    if k == "E":
        return str(r)
    return str(r.message) if getattr(r, "message", None) is not None else str(r)


def run(seq, final, iface, s, falsy=False):
    from pypsrp.powershell import PowerShell
    s.install(horizon=500 + 2 * len(seq))
    p = drive.pool()
    p.open()
    ps = PowerShell(p)
    ps.add_script("x")
    if iface == "invoke":
        out = ps.invoke()
    else:
        ps.begin_invoke()
        same(int(ps.state), 1, "state after begin_invoke")
        if iface == "poll":
            while int(ps.state) == 1:
                before = (len(ps.output), sum(len(getattr(ps.streams, x)) for x in drive.STREAMS))
                n = len(s.log)
                ps.poll_invoke(timeout=3)
                same(len(s.log), n + 1, "requests made by one poll")
                same([r.action for r in s.log[n:]], ["Receive"], "request made by a poll")
                if getattr(s.log[-1], "dry", False):
                    same((len(ps.output), sum(len(getattr(ps.streams, x)) for x in drive.STREAMS)), before, "a poll that timed out changed the result")
            out = ps.end_invoke()
        elif iface == "mixed":
            ps.poll_invoke()
            out = ps.end_invoke()
        else:
            out = ps.end_invoke()
    want = {k: [] for k in KINDS}
    for k, t in seq:
        want[k].append(t)
    if final[1] is not None:
        want["E"].append(final[1])
    same(list(out), want["O"], "output objects", "output differs from what the pipeline emitted")
    same([type(o).__name__ for o in out], [type(o).__name__ for o in want["O"]], "output types")
    same(list(ps.output), want["O"], "PowerShell.output")
    for k, name in STREAM.items():
        same([text_of(k, r) for r in getattr(ps.streams, name)], want[k], "stream %s" % name, "stream %s differs" % name)
    same([str(e.data) for e in p.user_events], want["U"], "user events")
    same(int(ps.state), final[0], "final state")
    same(bool(ps.had_errors), final[0] == 5, "had_errors") if final[0] == 5 or not want["E"] else None
    same(int(p.state), 2, "pool state")
    q = sum(len(x.out) for sh in s.shells.values() for x in sh.pipes.values())
    same(q, 0, "messages left unread when the call returned")
    same(s.errors, [], "server errors")
    n = len(s.log)
    same(list(ps.end_invoke()), want["O"], "second end_invoke")
    same(len(s.log), n, "requests made by end_invoke after the final state")
    return (tuple(k for k, _ in seq), final, iface), bool(seq)


def build(kinds):
    return [(k, "%s%d-€<&>" % (k, i)) for i, k in enumerate(kinds)]


def script_of(seq, final):
    return [(KINDS[k][0], KINDS[k][1](t)) for k, t in seq] + [(wire.PIPE_STATE, clixml.pipeline_state(*final))]


def cases(tier):
    out = [["sched", i, f] for i in range(len(SCHED)) for f in (0, 1)]
    for k in [None] + list(KINDS):
        out.append(["seq", k])
        out.append(["len3", k])
        if tier == "thorough":
            out += [["len4", k, k2] for k2 in KINDS]
    out.append(["falsy"])
    out += [["many", k, f, g] for k in list(KINDS) + ["mix", "same", "null"] for f in (0, 1) for g in ("each", "all")]
    return out


SCHED = ["OOO", "OEO", "WOIO", "EVDP"]


def run_case(case, rep):
    thorough = os.environ.get("VERIF_TIER") == "thorough"

    def one(kinds, final, iface, group):
        seq = build(kinds)
        rep.execute(lambda: run(seq, final, iface, Srv(script_of(seq, final), group)), case=case, choices=lambda: ["".join(kinds), list(final), iface, group])
    if case[0] == "seq":
        tails = [()] if case[1] is None else [(case[1],)] + [(case[1], k) for k in KINDS]
        for t in tails:
            combos = list(itertools.product(FINALS, IFACES, ("each", "all", "joined")))
            for i, (f, it, g) in enumerate(combos):
                if len(t) == 2 and not thorough and (i + ord(t[0]) + ord(t[1])) % 3:
                    continue
                one(t, f, it, g)
    elif case[0] == "len3":
        if case[1] is None:
            return
        for i, (a, b) in enumerate(itertools.product(KINDS, repeat=2)):
            one((case[1], a, b), FINALS[i % 5], IFACES[i % 4], ("each", "all", "joined")[i % 3])
    elif case[0] == "len4":
        for i, (a, b) in enumerate(itertools.product(KINDS, repeat=2)):
            one((case[1], case[2], a, b), FINALS[i % 5], IFACES[i % 4], ("each", "all", "joined")[i % 3])
    elif case[0] == "falsy":
        for n in (1, 2, 3):
            for combo in itertools.product(FALSY, repeat=n):
                if n == 3 and not thorough and combo[0] is not combo[2]:
                    continue
                sc = [(wire.OUTPUT, x) for x, _ in combo] + [(wire.PIPE_STATE, clixml.pipeline_state(4))]
                seq = [("O", v) for _, v in combo]
                rep.execute(lambda: run(seq, (4, None), "invoke", Srv(sc, "joined" if n == 2 else "each")), case=case, choices=lambda: [x for x, _ in combo])
                rep.note(("falsy", [x for x, _ in combo]))
    elif case[0] == "many":
        n = 2000 if thorough else 300
        k, final = case[1], FINALS[case[2]]
        if k == "mix":
            seq = build(("OEWVDPIUO" * n)[:n])
        elif k == "same":
            seq = [("OWVPEDI"[i % 7], "same") for i in range(n)]
        elif k == "null":
            seq = [("O", None)] * n
        else:
            seq = build([k] * n)
        sc = [(wire.OUTPUT, "<Nil />")] * n + [(wire.PIPE_STATE, clixml.pipeline_state(*final))] if k == "null" else script_of(seq, final)
        for iface in ("invoke", "poll") if case[3] == "each" else ("invoke",):
            rep.execute(lambda: run(seq, final, iface, Srv(sc, case[3])), case=case, choices=lambda: iface)
    elif case[0] == "sched":
        seq = build(SCHED[case[1]])
        final = FINALS[case[2]]

        def body(ctx):
            iface = ctx.pick(["invoke", "poll"], "interface", free=True)
            s = Srv(script_of(seq, final), "ctx", ctx)
            s.take_ = s.take

            def take(req, q):
                r = s.take_(req, q)
                req.dry = not r
                return r
            s.take = take
            out, nt = run(seq, final, iface, s)
            return (out, tuple(ctx.choices)), nt
        core.explore(body, rep, bound=4 if thorough else 2, cap=100000, case=case)
    else:
        raise core.HarnessError(case)
