"""P30: command metadata queries return every command described by the server."""
import itertools
import os

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P30"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of query arguments, of described commands (every field and parameter shape, all short sequences), of their delivery and of pool states, on the real RunspacePool over a reference server, judged against an independent CLIXML encoder and decoder"
LEVEL_NOTE = "Complete over names x all 512 command types x namespaces x argument lists from fixed value sets (types crossed with two forms of the rest), all combinations of five fields' shapes for one command, all parameter sets of up to two from every parameter shape, all sequences of up to three (thorough four) commands from eight x batch splits x fragment sizes x extra stream records, all pool states, and all sequences of up to three queries and pipelines on one pool."
RULE = "one evaluation = one metadata query, or one refused query; non-trivial when it sends or returns something other than the defaults"
ASSUMPTIONS = ["the server sends the count object first, as MS-PSRP 2.2.2.14 requires", "CommandType may be sent as the enumeration or as its number, which servers treat alike"]

TYPES = ["Alias", "Function", "Filter", "Cmdlet", "ExternalScript", "Application", "Script", "Workflow", "Configuration"]


class Xml:
    """builds one message with or without shared type names"""

    def __init__(self, share=True):
        """`share` refers back to type names and equal lists, and adds properties this client does not know"""
        self.n, self.t, self.share, self.seen, self.objs, self.more = -1, -1, share, {}, {}, share

    def ref(self):
        self.n += 1
        return self.n

    def tn(self, *names):
        if self.share and names in self.seen:
            return '<TNRef RefId="%d"/>' % self.seen[names]
        self.t += 1
        self.seen[names] = self.t
        return '<TN RefId="%d">%s</TN>' % (self.t, "".join("<T>%s</T>" % clixml.xml(n) for n in names))

    def s(self, name, v):
        if v is None:
            return '<Nil N="%s"/>' % name
        return '<S N="%s">%s</S>' % (name, clixml.escape(v))

    def lst(self, name, v, *types):
        if v is None:
            return '<Nil N="%s"/>' % name
        if self.share and (types, tuple(v)) in self.objs:
            return '<Ref N="%s" RefId="%d"/>' % (name, self.objs[types, tuple(v)])
        r = self.objs[types, tuple(v)] = self.ref()
        return '<Obj N="%s" RefId="%d">%s<LST>%s</LST></Obj>' % (name, r, self.tn(*types), "".join("<S>%s</S>" % clixml.escape(x) for x in v))

    def count(self, n):
        r = self.ref()
        return '<Obj RefId="%d">%s<MS><I32 N="Count">%d</I32></MS></Obj>' % (r, self.tn("Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo", "System.Management.Automation.PSCustomObject", "System.Object"), n)

    def param(self, p):
        r = self.ref()
        out = '<Obj N="Value" RefId="%d">%s<Props>' % (r, self.tn("System.Management.Automation.ParameterMetadata", "System.Object"))
        out += self.s("Name", p["name"]) + self.s("ParameterType", p["type"])
        out += self.lst("Aliases", p["aliases"], "System.Collections.ObjectModel.Collection`1[[System.String, mscorlib]]", "System.Object")
        for k, n in (("switch", "SwitchParameter"), ("dynamic", "IsDynamic")):
            out += '<B N="%s">%s</B>' % (n, "true" if p[k] else "false")
        return out + "</Props></Obj>"

    def command(self, c):
        r = self.ref()
        out = '<Obj RefId="%d">%s<MS>' % (r, self.tn("Selected.System.Management.Automation.CmdletInfo", "System.Management.Automation.PSCustomObject", "System.Object"))
        out += self.s("Name", c["name"]) + self.s("Namespace", c["namespace"]) + self.s("HelpUri", c["help"])
        if c["type"] is None:
            out += '<Nil N="CommandType"/>'
        else:
            r = self.ref()
            out += '<Obj N="CommandType" RefId="%d">%s<ToString>%s</ToString><I32>%d</I32></Obj>' % (r, self.tn("System.Management.Automation.CommandTypes", "System.Enum", "System.ValueType", "System.Object"), "x", c["type"])
        out += self.lst("OutputType", c["output"], "System.Collections.ObjectModel.ReadOnlyCollection`1[[System.Management.Automation.PSTypeName]]")
        if c["params"] is None:
            out += '<Nil N="Parameters"/>'
        else:
            r = self.ref()
            out += '<Obj N="Parameters" RefId="%d">%s<DCT>' % (r, self.tn("System.Collections.Generic.Dictionary`2[[System.String],[System.Management.Automation.ParameterMetadata]]", "System.Object"))
            out += "".join('<En><S N="Key">%s</S>%s</En>' % (clixml.escape(p["name"]), self.param(p)) for p in c["params"]) + "</DCT></Obj>"
        if self.more:
            r = self.ref()
            out += '<S N="ResolvedCommandName">x</S><Obj N="Later" RefId="%d"><MS><S N="Name">y</S></MS></Obj>' % r
        return out + "</MS></Obj>"


def P(name="Path", type="System.String", aliases=(), switch=False, dynamic=False):
    return dict(name=name, type=type, aliases=aliases if aliases is None else list(aliases), switch=switch, dynamic=dynamic)


def C(name="Get-Thing", namespace="Mod", help="http://h/?a=1&b=2", type=8, output=("System.String",), params=()):
    return dict(name=name, namespace=namespace, help=help, type=type, output=output if output is None else list(output), params=params if params is None else list(params))


LIB = [
    C(),
    C("Test-\u00e9 <&>_x0041_\n", "", None, 2, [], None),
    C("a", None, "", 1, None, [P(), P("Force", "System.Management.Automation.SwitchParameter", ["f", "fo"], True)]),
    C("Big-One", "N" * 3000, "u", 0x20, ["A", "B", "A"], [P("p%d" % i, "T%d" % i, ["x%d" % i] * (i % 3), i % 2 == 0, i % 3 == 0) for i in range(12)]),
    C("Get-Thing", "Other", "http://h/2", 8, ["System.Int32"], []),
    C("", "", "", 0x1ff, [""], [P("", "", [""], False, True)]),
    C("Old", None, None, 4, None, None),
    C("Params", "m", "h", 0x100, ["o"], [P("A", None, None), P("B", "", None, True), P("C", "c", ["1"], True, True)]),
]


def view_expected(c):
    ps = c["params"]
    return {"name": c["name"], "namespace": c["namespace"], "help_uri": c["help"], "command_type": c["type"], "output_type": c["output"],
            "parameters": None if ps is None else [(p["name"], p["name"], p["type"], p["aliases"], p["switch"], p["dynamic"]) for p in ps]}


def view(m):
    t = m.command_type
    ps = m.parameters
    return {"name": m.name, "namespace": m.namespace, "help_uri": m.help_uri, "command_type": t if t is None or isinstance(t, int) else t.value, "output_type": None if m.output_type is None else list(m.output_type),
            "parameters": None if ps is None else [(k, p.name, p.parameter_type, None if p.aliases is None else list(p.aliases), p.switch_parameter, p.dynamic) for k, p in ps.items()]}


EXTRA = {"": None, "warn": (wire.WARNING, clixml.info_record("Warning", "careful")), "err": (wire.ERROR, clixml.error_record("none", "Fq")), "prog": (wire.PROGRESS, clixml.progress("a"))}


class Meta(server.FullServer):
    """answers metadata queries with `described`"""
    described = ()
    share = True
    extra = ""
    group = 1
    piece = 0
    queries = ()

    def on_pipe_message(self, sh, p, m):
        if m.type != wire.GET_COMMAND_METADATA:
            return super().on_pipe_message(sh, p, m)
        self.queries = list(self.queries) + [clixml.decode(m.body)]
        kw = {"frag_size": self.piece} if self.piece else {}
        self.send(sh, p, wire.OUTPUT, Xml(self.share).count(len(self.described)), **kw)
        if EXTRA[self.extra]:
            self.send(sh, p, *EXTRA[self.extra], **kw)
        for c in self.described:
            self.send(sh, p, wire.OUTPUT, Xml(self.share).command(c), **kw)
            if EXTRA[self.extra]:
                self.send(sh, p, *EXTRA[self.extra], **kw)
        self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(4), **kw)

    def take(self, req, q_):
        """`group` queued pieces per reply, all of them when zero"""
        n = len(q_) if not self.group else min(self.group, len(q_))
        return [b"".join(q_.popleft() for _ in range(n))] if n else []


def clean(srv):
    need(not srv.errors, "request the server cannot accept: %s" % (srv.errors[:2],), "requests")
    need(not srv.oversize, "over the envelope limit: %s" % (srv.oversize[:2],), "oversize")


def opened(srv, **kw):
    srv.install()
    pool = drive.pool(**kw)
    pool.open()
    return pool


def sent(d):
    """the decoded query as plain values"""
    q = clixml.plain(d)
    t = q["CommandType"]
    if isinstance(t, dict):
        t = t.get("value", t.get("V"))
    return q["Name"], t, q["Namespace"], q["ArgumentList"]


def judge_sent(q, names, types, ns, args):
    n, t, s, a = sent(q)
    same(n, names, "Name", "names")
    same(t, types, "CommandType", "types")
    same(s, ns, "Namespace", "namespace")
    same(a, args, "ArgumentList", "arguments")


NAMES = ["*", "Get-*", [], ["a"], ["a", "b"], ["b", "a", "b"], "\u00e9<&>_x0041_\n", ["", " x "], ["n%04d" % i for i in range(800)]]
NSS = [None, [], ["m"], ["m*", "n?", "\u00e9_x0009_"]]
ARGS = [None, [], ["a"], [1, None, True], [["x", ["y"]], ["z", [[]]]], ["\u00e9<&>\n", 7], [None]]
DEFAULT = "default"


def query(rep, case, srv, names, types, ns, args):
    """one query with these arguments judged on what the server received"""
    def fn():
        pool = opened(srv)
        n0 = len(srv.queries)
        before = repr((names, ns, args))
        kw = {}
        if types is not DEFAULT:
            kw["command_types"] = types
        if ns is not DEFAULT:
            kw["namespace"] = ns
        if args is not DEFAULT:
            kw["arguments"] = args
        got = pool.get_command_metadata(names, **kw)
        need(len(srv.queries) == n0 + 1, "%d queries were sent" % (len(srv.queries) - n0), "queries")
        judge_sent(srv.queries[-1], names if isinstance(names, list) else [names], 0x1ff if types is DEFAULT else types,
                   None if ns is DEFAULT else ns, None if args is DEFAULT else args)
        same(repr((names, ns, args)), before, "the caller's arguments", "caller-arguments")
        same([view(m) for m in got], [view_expected(c) for c in srv.described], "commands", "commands")
        pool.close()
        clean(srv)
        return "ok", True
    rep.execute(fn, case=case)


def run_args(case, rep):
    for names in (NAMES if case[1] == "all" else NAMES[:2]):
        for ns in NSS + [DEFAULT]:
            for args in ARGS + [DEFAULT]:
                query(rep, case, Meta(described=LIB[:1]), names, 8, ns, args)
    for names in NAMES[:4]:
        for t in (DEFAULT, 0x1ff):
            query(rep, case, Meta(), names, t, DEFAULT, DEFAULT)


def run_types(case, rep):
    from pypsrp.complex_objects import CommandType
    lo, hi = case[1]
    for t in range(lo, hi):
        query(rep, case, Meta(), "*", t, None, None)
        query(rep, case, Meta(described=[C(type=t)]), ["a", "b"], t, ["m"], ["z"])
    if lo == 0:
        for i, n in enumerate(["ALIAS", "FUNCTION", "FILTER", "CMDLET", "EXTERNAL_SCRIPT", "APPLICATION", "SCRIPT", "WORKFLOW", "CONFIGURATION"]):
            def fn():
                same(getattr(CommandType, n), 1 << i, n, "constants")
                return "constant", True
            rep.execute(fn, case=case)


def answer(rep, case, described, group=1, frag=0, share=True, extra=""):
    def fn():
        srv = Meta(described=described, group=group, piece=frag, share=share, extra=extra)
        pool = opened(srv)
        got = pool.get_command_metadata("*")
        same(len(got), len(described), "number of commands", "count")
        for g, c in zip(got, described):
            same(view(g), view_expected(c), "command", "commands")
        pool.close()
        clean(srv)
        return len(got), bool(described)
    rep.execute(fn, case=case)


STR = ["v", "", None, "\u00e9_x0041_ <&>\r\n\t \U0001f600"]


def run_fields(case, rep):
    name = STR[case[1]]
    for ns, hlp in itertools.product(STR, STR):
        for t in (8, 0, 0x1ff, None):
            for out in ((), ("a",), ("a", "", "a"), None):
                if os.environ.get("VERIF_TIER") != "thorough" and ns is not STR[0] and hlp is not STR[0] and (t, out) != (8, ("a",)):
                    continue
                for params in ((), None, (P(),)):
                    if os.environ.get("VERIF_TIER") != "thorough" and params != () and (t, out) != (8, ("a",)):
                        continue
                    answer(rep, case, [C(name, ns, hlp, t, out, params)])


PSHAPES = [P(n, t, a, s, d) for n, t, a, s, d in itertools.product(["A", ""], ["T", "", None], [(), ("x",), ("x", "", "y"), None], [True, False], [True, False])]


def run_params(case, rep):
    lo, hi = case[1]
    for p in PSHAPES[lo:hi]:
        answer(rep, case, [C(params=[p])])
        for i in range(0, len(PSHAPES), 11 if os.environ.get("VERIF_TIER") != "thorough" else 1):
            answer(rep, case, [C(params=[p, dict(PSHAPES[i], name="Other")])], share=i % 2 == 0)


def run_seq(case, rep):
    first, n = i0, _ = case[1], case[2]
    deep = os.environ.get("VERIF_TIER") == "thorough"
    for rest in itertools.product(range(len(LIB)), repeat=n - 1):
        d = [LIB[first]] + [LIB[i] for i in rest]
        forms = [(1, 0, True, ""), (0, 300, False, "warn")]
        if n < 3 or deep and n < 4:
            forms = [(g, f, s, x) for g in (0, 1, 2, 3) for f in (0, 100, 700) for s in (True, False) for x in EXTRA]
            if n == 2 and not deep:
                forms = forms[i0 % 5::5]
        for f in forms:
            answer(rep, case, d, *f)


def run_empty(case, rep):
    for g in (0, 1):
        for x in EXTRA:
            answer(rep, case, [], g, 0, True, x)


def run_states(case, rep):
    """refused without contacting the server unless the pool is open"""
    from pypsrp.exceptions import InvalidRunspacePoolStateError
    from pypsrp.powershell import PowerShell, RunspacePool

    def prepare(state):
        srv = Meta(described=LIB[:2], script=[(wire.POOL_STATE, "x")])
        srv.install()
        pool = drive.pool()
        if state == "before":
            return srv, pool
        if state == "listed":
            pool.open()
            pool.disconnect()
            return srv, RunspacePool.get_runspace_pools(pool.connection)[0]
        pool.open()
        if state == "closed":
            pool.close()
        elif state == "disconnected":
            pool.disconnect()
        elif state == "reconnected":
            pool.disconnect()
            pool.connect()
        elif state == "reopened-close":
            with drive.pool(conn=pool.connection) as other:
                pass
            pool = other
        elif state == "broken":
            sh = next(iter(srv.shells.values()))
            srv.script = [(wire.OUTPUT, "<S>o</S>")]
            ps = PowerShell(pool)
            ps.add_cmdlet("x")
            ps.begin_invoke()
            p = next(iter(sh.pipes.values()))
            srv.send(sh, p, wire.POOL_STATE, clixml.pool_state(5, "dead"))
            try:
                for _ in range(3):
                    ps.poll_invoke()
            except Exception:
                pass
        return srv, pool

    for state in ("before", "closed", "disconnected", "listed", "broken", "reopened-close", "opened", "reconnected"):
        for args in ((), (8,), (8, ["n"]), (8, ["n"], ["a"])):
            def fn():
                srv, pool = prepare(state)
                n = len(srv.log)
                st = pool.state
                if state in ("opened", "reconnected"):
                    got = pool.get_command_metadata("*", *args)
                    same([view(g) for g in got], [view_expected(c) for c in LIB[:2]], "commands", "commands")
                    return "answered", True
                try:
                    pool.get_command_metadata("*", *args)
                except InvalidRunspacePoolStateError as e:
                    need(len(srv.log) == n, "the server was contacted for a pool in state %s: %s" % (state, srv.actions()[n:]), "contacted")
                    need(pool.state == st, "a refused query changed the state", "state")
                    need("%s" % e, "no message", "message")
                    return "refused", True
                raise core.Violation("a query was accepted with the pool %s" % state, "accepted", state=state)
            rep.execute(fn, case=case)


def run_history(case, rep):
    """queries and pipelines on one pool, one after another"""
    from pypsrp.powershell import PowerShell
    for n in range(1, 4):
        for seq in itertools.product(("q0", "q1", "q2", "ps", "keys"), repeat=n):
            def fn():
                srv = Meta(described=())
                pool = opened(srv)
                queries = 0
                for s in seq:
                    if s == "ps":
                        ps = PowerShell(pool)
                        ps.add_cmdlet("Get-X")
                        same(list(ps.invoke()), ["out"], "pipeline output", "pipeline")
                    elif s == "keys":
                        pool.exchange_keys()
                    else:
                        i = int(s[1])
                        srv.described = LIB[i * 2:i * 2 + 3]
                        got = pool.get_command_metadata(["n%d" % i], 1 << i, ["ns%d" % i] if i else None, [i])
                        queries += 1
                        same([view(g) for g in got], [view_expected(c) for c in srv.described], "commands", "commands")
                        judge_sent(srv.queries[-1], ["n%d" % i], 1 << i, ["ns%d" % i] if i else None, [i])
                need(len(srv.queries) == queries, "%d queries were sent for %d" % (len(srv.queries), queries), "queries")
                pool.close()
                clean(srv)
                return n, n > 1
            rep.execute(fn, case=case)


def cases(tier):
    deep = tier == "thorough"
    out = [["args", "all"], ["states"], ["history"], ["empty"]]
    out += [["types", [i, i + 64]] for i in range(0, 512, 64)]
    out += [["fields", i] for i in range(len(STR))]
    out += [["params", [i, i + 12]] for i in range(0, len(PSHAPES), 12)]
    for n in range(1, 5 if deep else 4):
        out += [["seq", i, n] for i in range(len(LIB))]
    return out


def run_case(case, rep):
    {"args": run_args, "types": run_types, "fields": run_fields, "params": run_params, "seq": run_seq, "empty": run_empty, "states": run_states, "history": run_history}[case[0]](case, rep)
