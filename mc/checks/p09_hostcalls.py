"""P09: host calls run once, in order, with their arguments, and are answered under their own id."""
import itertools
import os
import uuid

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P09"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of host methods x results x level, plus stateless exploration of call sequences mixed with other traffic under every batching/fragmentation, and explicit-state search of the default raw user interface against a reference model"
LEVEL_NOTE = "Complete over every host method id, result kind and level; complete over call sequences up to the stated length within the deviation bound."
RULE = "one evaluation = one session with one sequence of host calls; non-trivial when at least one call is answered or mixed with other traffic"
ASSUMPTIONS = ["host methods return normally (a raising host method is the caller's own error)",
               "the two SetBufferContents overloads (48, 49) may be numbered either way, the documentation contradicts itself"]

HOST = {1: "GetName", 2: "GetVersion", 3: "GetInstanceId", 4: "GetCurrentCulture", 5: "GetCurrentUICulture", 6: "SetShouldExit",
        7: "EnterNestedPrompt", 8: "ExitNestedPrompt", 9: "NotifyBeginApplication", 10: "NotifyEndApplication"}
UI = {11: "ReadLine", 12: "ReadLineAsSecureString", 13: "Write1", 14: "Write2", 15: "WriteLine1", 16: "WriteLine2", 17: "WriteLine3",
      18: "WriteErrorLine", 19: "WriteDebugLine", 20: "WriteProgress", 21: "WriteVerboseLine", 22: "WriteWarningLine", 23: "Prompt",
      24: "PromptForCredential1", 25: "PromptForCredential2", 26: "PromptForChoice"}
RAW = {27: "GetForegroundColor", 28: "SetForegroundColor", 29: "GetBackgroundColor", 30: "SetBackgroundColor", 31: "GetCursorPosition",
       32: "SetCursorPosition", 33: "GetWindowPosition", 34: "SetWindowPosition", 35: "GetCursorSize", 36: "SetCursorSize",
       37: "GetBufferSize", 38: "SetBufferSize", 39: "GetWindowSize", 40: "SetWindowSize", 41: "GetWindowTitle", 42: "SetWindowTitle",
       43: "GetMaxWindowSize", 44: "GetMaxPhysicalWindowSize", 45: "GetKeyAvailable", 46: "ReadKey", 47: "FlushInputBuffer",
       48: "SetBufferContents1", 49: "SetBufferContents2", 50: "GetBufferContents", 51: "ScrollBufferContents"}
ALL = dict(HOST)
ALL.update(UI)
ALL.update(RAW)

ARGS = [
    ("", ()),
    ("<S>a</S>", (("str", "a"),)),
    ("<S></S><I32>0</I32><B>false</B>", (("str", ""), ("int", 0), ("bool", False))),
    ("<Nil /><I64>7</I64>", (("NoneType", None), ("int", 7))),
    ('<Obj RefId="5"><TN RefId="6"><T>System.Collections.ArrayList</T><T>System.Object</T></TN><LST><S>x</S><S>y</S></LST></Obj><S>z</S>', (("list", (("str", "x"), ("str", "y"))), ("str", "z"))),
    ('<S>_x000A_</S><Obj RefId="5"><TN RefId="6"><T>System.Collections.Hashtable</T><T>System.Object</T></TN><DCT><En><S N="Key">k</S><I32 N="Value">1</I32></En></DCT></Obj>', (("str", "\n"), ("dict", ((("str", "k"), ("int", 1)),)))),
]


def results():
    from pypsrp.complex_objects import Array, BufferCell, BufferCellType, Color, Coordinates, KeyInfo, Size
    g = uuid.UUID(int=5)
    return {
        "none": (None, None),
        "empty": ("", ("S", "")),
        "text": ("r\u00e9s\n\U0001F600", ("S", "r\u00e9s\n\U0001F600")),
        "zero": (0, ("I32", 0)),
        "neg": (-1, ("I32", -1)),
        "big": (2 ** 40, ("I64", 2 ** 40)),
        "false": (False, ("B", False)),
        "true": (True, ("B", True)),
        "float": (0.0, None),
        "bytes": (b"", ("BA", b"")),
        "guid": (g, ("G", str(g))),
        "list": ([], []),
        "list2": (["a", 0, None], ["a", 0, None]),
        "dict": ({}, {"$dct": []}),
        "dict2": ({"name": "v"}, {"$dct": [("name", "v")]}),
        "color": (Color(value=0), 0),
        "coord": (Coordinates(x=0, y=3), {"X": 0, "Y": 3}),
        "size": (Size(width=4, height=0), {"Width": 4, "Height": 0}),
        "key": (KeyInfo(code=65, character="a", state=0, key_down=False), {"virtualKeyCode": 65, "character": 97, "controlKeyState": 0, "keyDown": False}),
        "cell": (BufferCell(character="q", foreground_color=Color(value=1), background_color=Color(value=2), cell_type=BufferCellType.COMPLETE),
                 {"character": 113, "foregroundColor": 1, "backgroundColor": 2, "bufferCellType": 0}),
        "long": ("L" * 700000, ("S", "L" * 700000)),
        "huge": ("H" * 2500000 + "e", ("S", "H" * 2500000 + "e")),
    }


class Recorder:
    """A real PSHost whose every method records its call."""

    def __init__(self, plan, raw=True):
        from pypsrp.host import PSHost, PSHostRawUserInterface, PSHostUserInterface
        self.calls = []
        rec = self

        def method(name):
            def f(obj, runspace, pipeline, *args):
                rec.calls.append((name, tuple(drive.freeze(a) for a in args), runspace, pipeline))
                return plan(name, len(rec.calls) - 1)
            return f

        def cls(base, table):
            return type("R" + base.__name__, (base,), {n: method(n) for n in table.values()})
        base = drive.host(raw=True)
        r = base.ui.raw_ui
        rr = cls(PSHostRawUserInterface, RAW)(r.window_title, r.cursor_size, r.foreground_color, r.background_color, r.cursor_position, r.window_position,
                                              r.buffer_size, r.max_physical_window_size, r.max_window_size, r.window_size)
        self.host = cls(PSHost, HOST)(None, None, False, "h", None, cls(PSHostUserInterface, UI)(rr if raw else None), "1.0")


class Srv(server.FullServer):
    """Plays a list of server messages to the pool (before an availability answer) or to the pipeline."""

    def __init__(self, pool_script=(), pipe_script=(), batch=0, cut=None):
        super().__init__()
        self.pool_script, self.pipe_script = pool_script, pipe_script
        self.batch, self.cut = batch, cut
        self.answered_at = []

    def on_host_response(self, sh, m):
        self.answered_at.append(len(self.log))

    def on_pool_other(self, sh, m):
        if m.type == wire.GET_AVAILABLE:
            for mt, body in self.pool_script:
                self.send(sh, None, mt, body, frag_size=self.cut)
            self.pool_script = ()
        super().on_pool_other(sh, m)

    def on_pipe_message(self, sh, p, m):
        if m.type == wire.CREATE_PIPELINE:
            for mt, body in self.pipe_script:
                self.send(sh, p, mt, body, frag_size=self.cut)
            self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(4), frag_size=self.cut)

    def take(self, req, q):
        n = len(q) if self.batch == 0 else min(self.batch, len(q))
        return [q.popleft() for _ in range(n)]


def check_response(m, level, p, ps, ci, mi, name, want):
    same(m.type, wire.PIPE_HOST_RESPONSE if level == "pipe" else wire.POOL_HOST_RESPONSE, "type of the response")
    same(m.dest, 2, "destination of the response")
    same(m.rpid, uuid.UUID(p.id), "pool id of the response")
    same(m.pid, uuid.UUID(ps.id) if level == "pipe" else wire.NIL, "pipeline id of the response")
    n = clixml.decode(m.body)
    same(set(n.ms), {"ci", "mi", "mr"}, "properties of the response")
    same(n.ms["ci"], ("I64", ci), "call id of the response")
    same(n.ms["mi"].value, ("I32", mi), "method id of the response")
    same(n.ms["mi"].tostring, name, "method name of the response")
    if want is not None:
        got = n.ms["mr"]
        same(got if isinstance(want, tuple) else clixml.plain(got), want, "result in the response")


def flat(v):
    """drive.freeze form of an argument with containers tagged, for comparison with ARGS."""
    return v


def session(level, calls, rec, batch=0, cut=None, outputs=(), use_host=True, **kw):
    """calls: list of (ci, mi, name, args_xml); outputs: positions after which an output/event is interleaved."""
    ct = wire.PIPE_HOST_CALL if level == "pipe" else wire.POOL_HOST_CALL
    script = []
    if "start" in outputs:
        script.append((wire.OUTPUT, "<S>o0</S>") if level == "pipe" else (wire.USER_EVENT, clixml.user_event(1)))
    for i, (ci, mi, name, xml) in enumerate(calls):
        script.append((ct, clixml.host_call(ci, mi, name, xml)))
        if i in outputs:
            script.append((wire.OUTPUT, "<S>o%d</S>" % (i + 1)) if level == "pipe" else (wire.USER_EVENT, clixml.user_event(i + 2)))
    s = Srv(script if level == "pool" else (), script if level == "pipe" else (), batch, cut)
    s.install(horizon=600)
    p = drive.pool(host=rec.host if use_host else None, **kw)
    p.open()
    ps = None
    from pypsrp.powershell import PowerShell
    if level == "pipe":
        ps = PowerShell(p)
        ps.add_script("x")
        out = ps.invoke()
        same([str(o) for o in out], [b[3:-4] for t, b in script if t == wire.OUTPUT], "output around the host calls", "output lost around host calls")
        same(int(ps.state), 4, "pipeline state")
    else:
        same(p.get_available_runspaces(), 7, "available runspaces")
        same(len(p.user_events), sum(1 for t, _ in script if t == wire.USER_EVENT), "events around the host calls", "events lost around host calls")
    same(p.get_available_runspaces(), 7, "the pool after the host calls")
    same(s.errors, [], "server errors")
    same(s.oversize, [], "oversized requests")
    return s, p, ps, list(s.shells.values())[0].host_responses


def method(mi, level, argi, kind):
    value, want = results()[kind]
    xml, args = ARGS[argi]
    rec = Recorder(lambda n, i: value)
    ci = (mi + 100, 2 ** 40 + mi, -mi, -2 ** 40 - mi)[argi % 4]
    s, p, ps, resp = session(level, [(ci, mi, ALL[mi], xml)], rec, outputs=("start", 0))
    names = ("SetBufferContents1", "SetBufferContents2") if mi in (48, 49) else (ALL[mi],)
    same(len(rec.calls), 1, "calls made for one host call", "host method not called exactly once")
    name, got, rs, pl = rec.calls[0]
    need(name in names, "method %d ran %s" % (mi, name), "wrong host method")
    same(tuple(flat(a) for a in got), args, "arguments of %s" % name, "wrong host call arguments")
    need(rs is p and pl is ps, "wrong pool or pipeline passed to %s" % name)
    if value is None:
        same(len(resp), 0, "responses to a call without a result")
    else:
        same(len(resp), 1, "responses to a call with result %r" % kind, "result %s not answered exactly once" % kind)
        check_response(resp[0], level, p, ps, ci, mi, names[0] if len(names) == 1 else clixml.decode(resp[0].body).ms["mi"].tostring, want)
    return (mi, level, argi, kind), True


SEQ = [(16, "WriteLine2", None), (11, "ReadLine", "line"), (45, "GetKeyAvailable", False), (26, "PromptForChoice", 0), (1, "GetName", "")]


def seq(ctx, level, n, batch, cut):
    calls, values = [], []
    outputs = set()
    if ctx.choose(2, "first output"):
        outputs.add("start")
    for i in range(n):
        mi, name, v = SEQ[ctx.choose(len(SEQ), "call", free=True)]
        ci = ctx.pick([i + 1, 50 - i, 1], "ci")
        calls.append((ci, mi, name, "<S>a%d</S>" % i if mi == 16 else ""))
        values.append(v)
        if ctx.choose(2, "output after"):
            outputs.add(i)
    rec = Recorder(lambda nm, i: values[i])
    s, p, ps, resp = session(level, calls, rec, batch, cut, outputs)
    same([c[0] for c in rec.calls], [c[2] for c in calls], "methods run", "host calls lost, repeated or reordered")
    same([c[1] for c in rec.calls], [(("str", "a%d" % i),) if c[1] == 16 else () for i, c in enumerate(calls)], "arguments")
    want = [(c, v) for c, v in zip(calls, values) if v is not None]
    same(len(resp), len(want), "number of responses", "calls with a result not answered exactly once each")
    for m, ((ci, mi, name, _), v) in zip(resp, want):
        check_response(m, level, p, ps, ci, mi, name, ("S", v) if isinstance(v, str) else ("B", v) if isinstance(v, bool) else ("I32", v))
    return (level, n, tuple(ctx.choices)), bool(want) or bool(outputs)


def nohost(level, mi, batch):
    rec = Recorder(lambda n, i: "never")
    s, p, ps, resp = session(level, [(1, mi, ALL[mi], "<S>a</S>"), (2, 11, "ReadLine", "")], rec, batch=batch, outputs=("start", 0, 1), use_host=False)
    same(len(resp), 0, "responses without a host")
    same(len(rec.calls), 0, "calls without a host")
    return (level, mi, batch), True


def unsupported(level, mi, name):
    rec = Recorder(lambda n, i: "r")
    s, p, ps, resp = session(level, [(1, mi, name, ""), (2, 11, "ReadLine", "")], rec, outputs=("start", 0, 1))
    same([c[0] for c in rec.calls], ["ReadLine"], "methods run")
    same(len(resp), 1, "responses")
    check_response(resp[0], level, p, ps, 2, 11, "ReadLine", ("S", "r"))
    return (level, mi), True


# ---------------------------------------------------------------- two pipelines / two pools

def two(order, level2):
    """Calls of two pipelines of one pool (and of a second pool with its own host) never mix."""
    from pypsrp.powershell import PowerShell
    r1 = Recorder(lambda n, i: "one%d" % i)
    r2 = Recorder(lambda n, i: "two%d" % i)
    s = Srv((), [(wire.PIPE_HOST_CALL, clixml.host_call(1, 11, "ReadLine", "")), (wire.OUTPUT, "<S>x</S>"), (wire.PIPE_HOST_CALL, clixml.host_call(1, 11, "ReadLine", ""))], batch=1)
    s.install(horizon=600)
    conn2 = server.connection()
    p1 = drive.pool(host=r1.host)
    p1.open()
    p2 = p1 if level2 == "pipe" else drive.pool(host=r2.host, conn=conn2)
    if p2 is not p1:
        p2.open()
    a, b = PowerShell(p1), PowerShell(p2)
    for x in (a, b):
        x.add_script("x")
        x.begin_invoke()
    live = {"a": a, "b": b}
    for o in order:
        live[o].poll_invoke(timeout=1)
    for x in (a, b):
        x.end_invoke()
        same([str(o) for o in x.output], ["x"], "output")
    sh1 = s.shells[p1.id.upper()]
    sh2 = s.shells[p2.id.upper()]
    owner = [c[3] for c in r1.calls]
    if p2 is p1:
        same(sorted(x is a for x in owner), [False, False, True, True], "pipelines passed to the host")
        same(len(sh1.host_responses), 4, "responses")
        for m, c in zip(sh1.host_responses, r1.calls):
            same(m.pid, uuid.UUID(c[3].id), "pipeline answered")
        same([clixml.plain(clixml.decode(m.body))["mr"] for m in sh1.host_responses], ["one%d" % i for i in range(4)], "answers")
    else:
        for sh, r, x, pfx in ((sh1, r1, a, "one"), (sh2, r2, b, "two")):
            need(all(c[3] is x and c[2] is x.runspace_pool for c in r.calls), "host called for another pool")
            same([(m.pid, clixml.plain(clixml.decode(m.body))["mr"]) for m in sh.host_responses], [(uuid.UUID(x.id), pfx + "0"), (uuid.UUID(x.id), pfx + "1")], "answers")
    return (tuple(order), level2), True


# ---------------------------------------------------------------- default implementation as a state machine

def gobj(**kv):
    return '<Obj RefId="9"><MS>%s</MS></Obj>' % "".join('<I32 N="%s">%d</I32>' % i for i in kv.items())


SETS = {
    "fg1": (28, "<I32>1</I32>"), "fg0": (28, "<I32>0</I32>"), "bg3": (30, "<I32>3</I32>"),
    "cur": (32, gobj(x=5, y=6)), "cur0": (32, gobj(x=0, y=0)), "win": (34, gobj(x=7, y=8)),
    "csize": (36, "<I32>50</I32>"), "buf": (38, gobj(width=30, height=31)), "wsize": (40, gobj(width=40, height=41)),
    "title": (42, "<S>new title</S>"), "title0": (42, "<S></S>"), "exit": (6, "<I32>3</I32>"), "flush": (47, ""), "begin": (9, ""), "end": (10, ""),
    "w1": (13, "<S>a</S>"), "w2": (14, "<I32>1</I32><I32>2</I32><S>b</S>"), "l1": (15, ""), "l2": (16, "<S>c</S>"), "l3": (17, "<I32>1</I32><I32>2</I32><S>d</S>"),
    "err": (18, "<S>e</S>"), "dbg": (19, "<S>f</S>"), "verb": (21, "<S>g</S>"), "warn": (22, "<S>h</S>"), "prog": (20, "<I64>1</I64><S>&lt;Obj/&gt;</S>"),
}
TEXT = {"w1": "a", "w2": "b", "l1": "\r\n", "l2": "c\r\n", "l3": "d\r\n", "dbg": "DEBUG: f\r\n", "verb": "VERBOSE: g\r\n", "warn": "WARNING: h\r\n"}
GETS = [1, 2, 3, 27, 29, 31, 33, 35, 37, 39, 41, 43, 44, 45]


def default_model(hist, host):
    m = {1: "h", 2: "1.0", 3: str(host.instance_id), 27: 1, 29: 2, 31: {"X": 0, "Y": 0}, 33: {"X": 1, "Y": 2}, 35: 0, 37: {"Width": 5, "Height": 6},
         39: {"Width": 11, "Height": 12}, 41: "title", 43: {"Width": 9, "Height": 10}, 44: {"Width": 7, "Height": 8}, 45: False}
    out, err, rc = [], [], None
    for e in hist:
        if e == "fg1":
            m[27] = 1
        if e == "fg0":
            m[27] = 0
        if e == "bg3":
            m[29] = 3
        if e == "cur":
            m[31] = {"X": 5, "Y": 6}
        if e == "cur0":
            m[31] = {"X": 0, "Y": 0}
        if e == "win":
            m[33] = {"X": 7, "Y": 8}
        if e == "csize":
            m[35] = 50
        if e == "buf":
            m[37] = {"Width": 30, "Height": 31}
        if e == "wsize":
            m[39] = {"Width": 40, "Height": 41}
        if e == "title":
            m[41] = "new title"
        if e == "title0":
            m[41] = ""
        if e == "exit":
            rc = 3
        if e in TEXT:
            out.append(TEXT[e])
        if e == "err":
            err.append("e\r\n")
    return m, out, err, rc


def default_step(hist):
    host = drive.host(raw=True)
    calls = [(i + 1, SETS[e][0], ALL[SETS[e][0]], SETS[e][1]) for i, e in enumerate(hist)] + [(100 + g, g, ALL[g], "") for g in GETS]

    class R:
        pass
    r = R()
    r.host = host
    s, p, ps, resp = session("pipe", calls, r)
    m, out, err, rc = default_model(hist, host)
    same(len(resp), len(GETS), "responses of the default host", "default host: calls with a result not answered exactly once")
    got = {}
    for x in resp:
        d = clixml.plain(clixml.decode(x.body))
        got[d["ci"] - 100] = d["mr"]
    same(got, m, "what the default host answers after %s" % (hist,), "default host state")
    same((host.ui.stdout, host.ui.stderr, host.rc), (out, err, rc), "what the default host recorded", "default host output")
    key = (tuple(sorted((k, str(v)) for k, v in m.items())), tuple(out), tuple(err), rc)
    return key, list(SETS)


def cases(tier):
    out = []
    for level in ("pipe", "pool"):
        for batch in (0, 1, 2):
            for cut in (None, 700, 300):
                for n in (3, 2, 1) if tier == "thorough" else (2, 1):
                    out.append(["seq", level, n, batch, cut])
    for e in SETS:
        out.append(["default", e, 3 if tier == "thorough" else 2])
    for order in sorted(set(itertools.permutations("aaabbb", 6))) if tier == "thorough" else sorted(set(itertools.permutations("aabb", 4))):
        for l2 in ("pipe", "pool"):
            out.append(["two", "".join(order), l2])
    kinds = list(results())
    for mi in ALL:
        out.append(["method", mi])
    for level in ("pipe", "pool"):
        for mi in (1, 11, 12, 16, 26, 27, 51):
            for b in (0, 1):
                out.append(["nohost", level, mi, b])
        for mi, name in ((52, "PushRunspace"), (53, "PopRunspace"), (54, "GetIsRunspacePushed"), (56, "PromptForChoiceMultipleSelection")):
            out.append(["unsupported", level, mi, name])
    return out


def run_case(case, rep):
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    k = case[0]
    if k == "seq":
        bound = (1 if case[2] == 3 else None) if thorough else (1 if case[2] == 2 else None)
        core.explore(lambda ctx: seq(ctx, *case[1:]), rep, bound=bound, cap=60000, case=case)
    elif k == "default":
        core.bfs(rep, [case[1]], None, default_step, case=case, max_depth=case[2])
    elif k == "two":
        rep.execute(lambda: two(case[1], case[2]), case=case)
    elif k == "nohost":
        rep.execute(lambda: nohost(*case[1:]), case=case)
    elif k == "unsupported":
        rep.execute(lambda: unsupported(*case[1:]), case=case)
    elif k == "method":
        mi = case[1]
        kinds = list(results())
        for level in ("pipe", "pool"):
            for j, kind in enumerate(kinds):
                argis = range(len(ARGS)) if thorough or kind in ("none", "false") else [(mi + j) % len(ARGS)]
                if kind in ("long", "huge") and mi not in (11, 41) and not (thorough and kind == "long"):
                    continue
                for a in argis:
                    rep.execute(lambda: method(mi, level, a, kind), case=case, choices=lambda: [level, a, kind])
