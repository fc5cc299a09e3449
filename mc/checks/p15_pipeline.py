"""P15: the pipeline the server receives is the pipeline that was built."""
import itertools
import os

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P15"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of building-call sequences, of interleavings of two builders sharing commands and values, and of build/send histories, executed on the real client against a list model of the pipeline, judged on the decoded create-pipeline message"
LEVEL_NOTE = "Complete over all sequences of 13 building calls up to length 4 (thorough 5), all interleavings of two builders up to 4 calls (thorough 5) and all build/invoke/close histories up to the stated length."
RULE = "one evaluation = one building sequence sent; non-trivial when at least one command was sent"
ASSUMPTIONS = ["an argument, parameter or statement mark before any command is refused in some way", "the server runs ExtraCmds when present and Cmds otherwise"]


class Model:
    """What the caller built: a list of commands, each a dict."""

    def __init__(self):
        self.cmds = []

    def apply(self, op, shared):
        k = op[0]
        if k == "cmdlet":
            self.cmds.append(dict(Cmd=op[1], IsScript=False, UseLocalScope=op[2], Args=[], eos=False))
        elif k == "script":
            self.cmds.append(dict(Cmd=op[1], IsScript=True, UseLocalScope=op[2], Args=[], eos=False))
        elif k == "command":
            self.cmds.append(shared[op[1]])
        elif k == "clear":
            self.cmds = []
        elif not self.cmds:
            return False
        elif k == "arg":
            self.cmds[-1]["Args"].append((None, op[1]))
        elif k == "param":
            self.cmds[-1]["Args"].append((op[1], op[2]))
        elif k == "params":
            self.cmds[-1]["Args"].extend(op[1])
        elif k == "statement":
            self.cmds[-1]["eos"] = True
        return True

    def statements(self):
        out, cur = [], []
        for c in self.cmds:
            cur.append((c["Cmd"], c["IsScript"], c["UseLocalScope"], tuple(c["Args"])))
            if c["eos"]:
                out.append(cur)
                cur = []
        if cur:
            out.append(cur)
        return out


def real(ps, op, shared):
    k = op[0]
    if k == "cmdlet":
        r = ps.add_cmdlet(op[1]) if op[2] is None else ps.add_cmdlet(op[1], op[2])
    elif k == "script":
        r = ps.add_script(op[1]) if op[2] is None else ps.add_script(op[1], use_local_scope=op[2])
    elif k == "command":
        r = ps.add_command(shared[op[1]])
    elif k == "clear":
        r = ps.clear_commands()
    elif k == "arg":
        r = ps.add_argument(op[1])
    elif k == "param":
        r = ps.add_parameter(op[1]) if op[2] is None else ps.add_parameter(op[1], op[2])
    elif k == "params":
        r = ps.add_parameters(dict(op[1]))
    else:
        r = ps.add_statement()
    need(r is ps, "%s does not return the pipeline" % (op,), "builder does not return the pipeline")


def do(ps, m, op, sh, msh):
    """Apply to both; a refused call changes nothing."""
    ok = m.apply(op, msh)
    try:
        real(ps, op, sh)
        done = True
    except core.Violation:
        raise
    except Exception:
        done = False
    need(ok == done, "%s is %s" % (op, "refused" if ok else "accepted before any command"), "building call refused" if ok else "call before any command is accepted")


def prim(n):
    return None if n == ("Nil",) else n[1]


def received(created):
    """The statements in the message, decoded independently."""
    p = created.ms["PowerShell"].ms

    def cmds(n):
        out = []
        for c in n.cont[1]:
            m = c.ms
            need(m["IsScript"][0] == "B" and m["UseLocalScope"][0] in ("B", "Nil") and m["Cmd"][0] == "S", "command %r" % (m,), "type of a command flag")
            for k in m:
                if k.startswith("Merge"):
                    same(m[k].value, ("I32", 0), "%s of an unmerged command" % k, "merge flag on a command nobody merged")
            out.append((m["Cmd"][1], m["IsScript"][1], prim(m["UseLocalScope"]), tuple((prim(a.ms["N"]), clixml.plain(a.ms["V"]) if not isinstance(a.ms["V"], clixml.Node) else frz(a.ms["V"])) for a in m["Args"].cont[1])))
        return out
    first = cmds(p["Cmds"])
    extra = p.get("ExtraCmds")
    if extra is None or extra == ("Nil",):
        return [first]
    st = [cmds(x.ms["Cmds"]) for x in extra.cont[1]]
    same(first, st[0], "Cmds against the first of ExtraCmds")
    return st


def frz(n):
    v = clixml.plain(n)
    return tuple(v) if isinstance(v, list) else v


OPS = [("cmdlet", "A", None), ("cmdlet", "B", True), ("script", "s", None), ("script", "'t' | x", False), ("arg", 1), ("arg", "x"), ("param", "P", "v"), ("param", "S", None),
       ("params", (("K1", 1), ("K2", None))), ("statement",), ("clear",), ("command", 0), ("arg", None)]
SECOND = [("cmdlet", "A", None), ("script", "s", True), ("arg", "x"), ("param", "P", "v"), ("statement",), ("command", 0), ("clear",)]


def shared_cmds(proto="2.3"):
    from pypsrp.complex_objects import Command, CommandParameter
    sh = [Command("Shared", protocol_version=proto, is_script=False, use_local_scope=None, args=[CommandParameter(name="q", value=5)])]
    return sh, [dict(Cmd="Shared", IsScript=False, UseLocalScope=None, Args=[("q", 5)], eos=False)]


def newpool(keep=40):
    s = server.FullServer()
    s.script = [(wire.PIPE_STATE, clixml.pipeline_state(4))]
    s.install(horizon=10 ** 9)
    p = drive.pool()
    p.open()
    return s, p


def last_pipe(s, ps):
    sh = list(s.shells.values())[0]
    return {k.upper(): v for k, v in sh.pipes.items()}[ps.id.upper()]


def send(s, p, ps, m, invoke=False, **kw):
    """Send and compare with the model; empty pipelines are refused and nothing is sent."""
    sh = list(s.shells.values())[0]
    n = len(s.log)
    before = len(sh.pipes)
    if not m.cmds:
        try:
            (ps.invoke if invoke else ps.begin_invoke)(**kw)
        except Exception:
            same(len(s.log), n, "requests of a refused invocation", "a pipeline without commands reaches the server")
            return None
        need(False, "a pipeline without commands is accepted", "a pipeline without commands is accepted")
    (ps.invoke if invoke else ps.begin_invoke)(**kw)
    same(s.errors, [], "server errors")
    pipe = last_pipe(s, ps)
    want = m.statements()
    got = received(pipe.created)
    if got != want:
        need(False, "server received %s, built %s" % (core.short(got), core.short(want)), "pipeline received is not the one built")
    return pipe


def cleanup(s, p):
    """Forget what was sent, so that long explorations stay cheap."""
    sh = list(s.shells.values())[0]
    sh.pipes.clear()
    p.pipelines.clear()
    del s.log[:]


def sequence(s, p, ops):
    from pypsrp.powershell import PowerShell
    ps = PowerShell(p)
    m = Model()
    sh, msh = shared_cmds()
    for op in ops:
        do(ps, m, op, sh, msh)
    pipe = send(s, p, ps, m)
    cleanup(s, p)
    return ops, pipe is not None


def two(s, p, ops):
    """ops: [(which, op)]; both are sent afterwards, the second first, then the first's message is compared with a fresh build."""
    from pypsrp.powershell import PowerShell
    pss = [PowerShell(p), PowerShell(p)]
    ms = [Model(), Model()]
    sh, msh = shared_cmds()
    for w, op in ops:
        do(pss[w], ms[w], op, sh, msh)
    any_sent = False
    for w in (1, 0):
        any_sent |= send(s, p, pss[w], ms[w]) is not None
    cleanup(s, p)
    return ops, any_sent


HIST = [("cmdlet", "A", None), ("script", "s", None), ("arg", (1, "y")), ("param", "P", "v"), ("statement",), ("command", 0), ("clear",), ("invoke",), ("invoke2",)]


def hist(s, p, ops):
    """Build and send in any order, the shared command also used by a second pipeline; the same object is sent again and again."""
    from pypsrp.powershell import PowerShell
    ps = [PowerShell(p), PowerShell(p)]
    ms = [Model(), Model()]
    sh, msh = shared_cmds()
    ms[1].apply(("command", 0), msh)
    ps[1].add_command(sh[0])
    ms[1].apply(("cmdlet", "Tail", None), msh)
    ps[1].add_cmdlet("Tail")
    val = [1, "y"]
    sent = 0
    for op in list(ops) + [("invoke",), ("invoke",)]:
        if op[0] in ("invoke", "invoke2"):
            w = 1 if op[0] == "invoke2" else 0
            pipe = send(s, p, ps[w], ms[w], invoke=True)
            if pipe is not None:
                sent += 1
                same(int(ps[w].state), 4, "state after the run")
                ps[w].close()
        elif op == ("arg", (1, "y")):
            ok = ms[0].apply(op, msh)
            try:
                ps[0].add_argument(val)
                need(ok, "argument before any command is accepted", "call before any command is accepted")
            except (IndexError, ValueError, TypeError, AttributeError):
                need(not ok, "building call refused", "building call refused")
            except core.Violation:
                raise
        else:
            do(ps[0], ms[0], op, sh, msh)
    same(val, [1, "y"], "caller's argument")
    cleanup(s, p)
    return ops, sent > 0


def options(s, p, inv, add, apt, red, rso, pool_apt, hist_str, nested):
    """Invocation options arrive as given."""
    from pypsrp.powershell import PowerShell
    p.apartment_state = pool_apt
    ps = PowerShell(p)
    ps.add_cmdlet("A")
    ps.history_string = hist_str
    ps.is_nested = nested
    kw = {}
    if add is not None:
        kw["add_to_history"] = add
    if apt is not None:
        kw["apartment_state"] = apt
    if red is not None:
        kw["redirect_shell_error_to_out"] = red
    if rso is not None:
        kw["remote_stream_options"] = rso
    if inv is not None:
        kw["input"] = list(inv) if isinstance(inv, tuple) else inv
    ps.begin_invoke(**kw)
    same(s.errors, [], "server errors")
    m = last_pipe(s, ps).created.ms
    pw = m["PowerShell"].ms
    got = dict(no_input=m["NoInput"], apt=m["ApartmentState"].value, rso=m["RemoteStreamOptions"].value, add=m["AddToHistory"], nested=m["IsNested"], pnested=pw["IsNested"], hist=pw["History"], red=pw["RedirectShellErrorOutputPipe"])
    want = dict(no_input=("B", inv is None), apt=("I32", pool_apt if apt is None else apt), rso=("I32", 15 if rso is None else rso), add=("B", bool(add)), nested=("B", nested), pnested=("B", nested),
                hist=("Nil",) if hist_str is None else ("S", hist_str), red=("B", bool(red)))
    for k in want:
        same(got[k], want[k], "option %s" % k, "invocation option %s not as given" % k)
    if inv is not None:
        same([clixml.plain(clixml.decode(b)) for b in last_pipe(s, ps).inputs], list(inv) if isinstance(inv, tuple) else [inv], "input")
    p.apartment_state = 2
    cleanup(s, p)
    return (inv, add, apt, red, rso, pool_apt, hist_str, nested), True


ITEMS = [None, 0, "", False, "a", (), (1,), (None,), (1, "b"), (None, 0, "")]


def given(s, p, kind, seq):
    """However the input is handed over, the pipeline is announced with input, gets exactly these items in order and then the end."""
    from pypsrp.powershell import PowerShell
    py = [list(x) if isinstance(x, tuple) else x for x in seq]
    want = [y for x in seq for y in (x if isinstance(x, tuple) else (x,))]
    if kind == "gen":
        value = (x for x in py)
    else:
        value = py[0]
    keep = repr(py)
    ps = PowerShell(p)
    ps.add_cmdlet("A")
    ps.begin_invoke(input=value)
    same(s.errors, [], "server errors")
    pipe = last_pipe(s, ps)
    got = [clixml.plain(clixml.decode(b)) for b in pipe.inputs]
    need(repr(got) == repr(want), "input items received: %r, given %r" % (got, want), "input items received")
    if want or kind == "gen":
        same(pipe.created.ms["NoInput"], ("B", False), "NoInput", "input not announced")
    need(pipe.created.ms["NoInput"] == ("B", True) or pipe.input_ended, "the end of the input is not sent", "no end of input")
    same([m.type for m in pipe.msgs[1:] if m.type != 0x00041002], [0x00041003] if pipe.input_ended else [], "messages")
    same(repr(py), keep, "caller's input")
    cleanup(s, p)
    return (kind, repr(seq)), True


def big(s, p, n, kind):
    """Many commands, arguments and statements: the message spans several requests."""
    from pypsrp.powershell import PowerShell
    ps = PowerShell(p)
    m = Model()
    sh, msh = shared_cmds()
    for i in range(n if kind != "many" else 2):
        op = {"cmds": ("cmdlet", "C%d" % i, None), "args": ("arg", "v%d" % i), "stmts": ("script", "x" * 500 + str(i), bool(i % 2)), "param": ("param", "p%d" % i, "y" * 300), "many": ("cmdlet", "M%d" % i, None)}[kind]
        if i == 0 and op[0] in ("arg", "param"):
            do(ps, m, ("cmdlet", "Z", None), sh, msh)
        do(ps, m, op, sh, msh)
        if kind == "stmts":
            do(ps, m, ("statement",), sh, msh)
        if kind == "many":
            do(ps, m, ("params", tuple(("p%d" % (j * 7 % n), j) for j in range(n))), sh, msh)
    send(s, p, ps, m, invoke=True)
    return (n, kind), True


def cases(tier):
    out = [["options"], ["big"], ["given", "value"]] + [["given", i] for i in range(len(ITEMS))]
    out += [["hist", i] for i in range(len(HIST))]
    out += [["two", i, w] for i in range(len(SECOND)) for w in (0, 1)]
    out += [["seq", i, j] for i in range(len(OPS)) for j in range(len(OPS))]
    return out


def run_case(case, rep):
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    s, p = newpool()
    k = case[0]
    if k == "seq":
        pre = (OPS[case[1]], OPS[case[2]])
        depth = 5 if thorough else 4
        if case[2] == 0:
            rep.execute(lambda: sequence(s, p, pre[:1]), case=case, choices=lambda: pre[:1])
            if case[1] == 0:
                rep.execute(lambda: sequence(s, p, ()), case=case, choices=lambda: ())
        if pre[0][0] in ("arg", "param", "params", "statement", "clear"):
            depth -= 1      # nothing to apply it to yet
        for n in range(depth - 1):
            for t in itertools.product(OPS, repeat=n):
                rep.execute(lambda: sequence(s, p, pre + t), case=case, choices=lambda: pre + t)
    elif k == "two":
        alpha = [(w, op) for w in (0, 1) for op in SECOND]
        pre = ((case[2], SECOND[case[1]]),)
        for n in range(4 if thorough else 3):
            for t in itertools.product(alpha, repeat=n):
                rep.execute(lambda: two(s, p, pre + t), case=case, choices=lambda: pre + t)
    elif k == "hist":
        pre = (HIST[case[1]],)
        for n in range(4 if thorough else 3):
            for t in itertools.product(HIST, repeat=n):
                rep.execute(lambda: hist(s, p, pre + t), case=case, choices=lambda: pre + t)
    elif k == "given":
        if case[1] == "value":
            for x in ITEMS[1:]:
                rep.execute(lambda: given(s, p, "value", (x,)), case=case, choices=lambda: repr(x))
            rep.execute(lambda: given(s, p, "gen", ()), case=case, choices=lambda: "empty")
        else:
            for n in range(4 if thorough else 3):
                for t in itertools.product(ITEMS, repeat=n):
                    t = (ITEMS[case[1]],) + t
                    rep.execute(lambda: given(s, p, "gen", t), case=case, choices=lambda: repr(t))
    elif k == "options":
        dom = [(None, "i", ("a", "b", 3), (), 0, "", False), (None, True, False), (None, 0, 1, 2), (None, True, False), (None, 0, 1, 5, 15), (0, 1, 2), (None, "", "h <x>"), (False, True)]
        base = [None, None, None, None, None, 2, None, False]
        seen = set()
        for i, j in itertools.combinations(range(len(dom)), 2):
            for a in dom[i]:
                for b in dom[j]:
                    v = list(base)
                    v[i], v[j] = a, b
                    if v[0] == () or tuple(map(repr, v)) in seen:
                        continue
                    seen.add(tuple(map(repr, v)))
                    rep.execute(lambda: options(s, p, *v), case=case, choices=lambda: v)
    else:
        for n in (100, 257, 1000):
            rep.execute(lambda: given(s, p, "gen", tuple("v%d" % (i % 300) for i in range(n))), case=case, choices=lambda: ["input", n])
            rep.execute(lambda: given(s, p, "value", (tuple(range(n)),)), case=case, choices=lambda: ["input list", n])
        for kind in ("cmds", "args", "stmts", "param", "many"):
            for n in (1, 2, 3, 50, 500):
                rep.execute(lambda: big(s, p, n, kind), case=case, choices=lambda: [kind, n])
