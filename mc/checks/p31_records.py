"""P31: records decode with every field the server sent."""
import itertools
import os

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P31"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of record contents: subsets of optional fields, null and missing forms, any-typed values, unknown parts, and positions in a batch, for every record kind, encoded by an independent CLIXML writer, delivered through the real pipeline and compared field by field"
LEVEL_NOTE = "Complete over all 2^11 subsets of the error's own optional fields with and without invocation details, all subsets of each half of the 21 invocation and command fields with the other half present or absent, all pairs of those fields, three-valued (present, null, missing) products of every six neighbouring fields (thorough: for every kind), every any-typed value x every any-typed field, every unknown part x kind, and all sequences of up to three (thorough four) records of nine forms x delivery."
RULE = "one evaluation = one pipeline delivering a batch of records; non-trivial when some record has an optional field"
ASSUMPTIONS = ["fields outside MS-PSRP 2.2.3.15, 2.2.3.16, 2.2.2.25 and 2.2.2.26 (such as PSScriptRoot or the script extent) count as unknown parts", "the fields MS-PSRP makes mandatory are sent, possibly null where the type allows it"]

DEEP = os.environ.get("VERIF_TIER") == "thorough"


class W:
    """one message under construction: reference ids and shared type names"""

    def __init__(self):
        self.r = -1
        self.t = {}

    def rid(self):
        self.r += 1
        return self.r

    def tn(self, names):
        if not names:
            return ""
        if names in self.t:
            return '<TNRef RefId="%d"/>' % self.t[names]
        self.t[names] = len(self.t)
        return '<TN RefId="%d">%s</TN>' % (self.t[names], "".join("<T>%s</T>" % clixml.xml(n) for n in names))

    def obj(self, inner, types=(), text=None, n=None):
        """inner is called after the object got its id"""
        r = self.rid()
        tn = self.tn(types)
        body = inner() if callable(inner) else inner
        return '<Obj%s RefId="%d">%s%s%s</Obj>' % (name(n), r, tn, "" if text is None else "<ToString>%s</ToString>" % clixml.escape(text), body)

    def value(self, v, n=None):
        """v is (tag, payload)"""
        tag, p = v
        if tag == "Nil":
            return "<Nil%s/>" % name(n)
        if tag in ("S", "URI", "SBK", "XD"):
            return "<%s%s>%s</%s>" % (tag, name(n), clixml.escape(p), tag)
        if tag == "B":
            return "<B%s>%s</B>" % (name(n), "true" if p else "false")
        if tag == "LST":
            types, items = p
            return self.obj(lambda: "<LST>%s</LST>" % "".join(self.value(i) for i in items), types, n=n)
        if tag == "DCT":
            types, items = p
            return self.obj(lambda: "<DCT>%s</DCT>" % "".join("<En>%s%s</En>" % (self.value(k, "Key"), self.value(x, "Value")) for k, x in items), types, n=n)
        if tag == "ENUM":
            types, text, num = p
            return self.obj("<I32>%d</I32>" % num, types, text, n)
        if tag == "OBJ":
            types, text, props, ms = p
            return self.obj(lambda: self.section("Props", props) + self.section("MS", ms), types, text, n)
        return "<%s%s>%s</%s>" % (tag, name(n), p, tag)

    def section(self, tag, items):
        if items is None:
            return ""
        return "<%s>%s</%s>" % (tag, "".join(self.value(v, k) for k, v in items), tag)


def name(n):
    return "" if n is None else ' N="%s"' % clixml.escape(n)


LIST = ("System.Collections.Generic.List`1[[System.Object, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]", "System.Object")
STRLIST = ("System.Collections.Generic.List`1[[System.String, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]", "System.Object")
INTS = ("System.Int32[]", "System.Array", "System.Object")
ROC = ("System.Collections.ObjectModel.ReadOnlyCollection`1[[System.Int32, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]", "System.Object")
BOUND = ("System.Management.Automation.PSBoundParametersDictionary", "System.Collections.Generic.Dictionary`2[[System.String, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089],[System.Object, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]", "System.Object")


def enum(t):
    return (t, "System.Enum", "System.ValueType", "System.Object")


def text(v):
    return ("S", v)


def view(v, seen=()):
    """a decoded value, whatever class holds it"""
    if id(v) in seen:
        return "cycle"
    if hasattr(v, "adapted_properties"):
        s = seen + (id(v),)
        return {"text": str(v) if v.to_string is not None else None, "adapted": {k: view(x, s) for k, x in v.adapted_properties.items()}, "extended": {k: view(x, s) for k, x in v.extended_properties.items()}}
    if isinstance(v, list):
        return [view(x, seen + (id(v),)) for x in v]
    if isinstance(v, dict):
        return {"$dict": [(view(k), view(x, seen + (id(v),))) for k, x in v.items()]}
    if type(v).__module__.startswith("pypsrp") and hasattr(v, "value"):
        return v.value
    return v


def expect(v):
    tag, p = v
    if tag == "Nil":
        return None
    if tag == "LST":
        return [expect(i) for i in p[1]]
    if tag == "DCT":
        return {"$dict": [(expect(k), expect(x)) for k, x in p[1]]}
    if tag == "ENUM":
        return p[2]
    if tag == "OBJ":
        types, t, props, ms = p
        return {"text": t, "adapted": {k: expect(x) for k, x in props or ()}, "extended": {k: expect(x) for k, x in ms or ()}}
    return p


def obj(types, t, props=None, ms=None):
    return ("OBJ", (tuple(types), t, props, ms))


def exception(msg):
    return obj(("System.Exception", "System.Object"), "System.Exception: " + msg, [("Message", text(msg)), ("InnerException", ("Nil", None)), ("HResult", ("I32", -5)), ("Data", ("DCT", (("System.Collections.Hashtable", "System.Object"), [])))])


# every field: attribute, wire name, value for record number i
INV = [
    ("invocation_name", "InvocationInfo_InvocationName", lambda i: text("inv%d" % i)),
    ("invocation_bound_parameters", "InvocationInfo_BoundParameters", lambda i: ("DCT", (BOUND, [(text("p"), text("b%d" % i)), (text("q"), ("I32", i))][:i % 3]))),
    ("invocation_unbound_arguments", "InvocationInfo_UnboundArguments", lambda i: ("LST", (LIST, [text("u%d" % i), ("I32", i), ("Nil", None)][:i % 4]))),
    ("invocation_command_origin", "InvocationInfo_CommandOrigin", lambda i: ("ENUM", (enum("System.Management.Automation.CommandOrigin"), "Runspace", i % 2))),
    ("invocation_expecting_input", "InvocationInfo_ExpectingInput", lambda i: ("B", i % 2 == 0)),
    ("invocation_line", "InvocationInfo_Line", lambda i: text("line%d \u00e9<&>\r\n" % i)),
    ("invocation_offset_in_line", "InvocationInfo_OffsetInLine", lambda i: ("I32", 100 + i)),
    ("invocation_position_message", "InvocationInfo_PositionMessage", lambda i: text("pos%d" % i)),
    ("invocation_script_name", "InvocationInfo_ScriptName", lambda i: text("script%d" % i)),
    ("invocation_script_line_number", "InvocationInfo_ScriptLineNumber", lambda i: ("I32", 200 + i)),
    ("invocation_history_id", "InvocationInfo_HistoryId", lambda i: ("I64", 300 + i)),
    ("invocation_pipeline_length", "InvocationInfo_PipelineLength", lambda i: ("I32", 400 + i)),
    ("invocation_pipeline_position", "InvocationInfo_PipelinePosition", lambda i: ("I32", 500 + i)),
    ("invocation_pipeline_iteration_info", "InvocationInfo_PipelineIterationInfo", lambda i: ("LST", (INTS, [("I32", i), ("I32", 0), ("I32", 9)][:i % 4]))),
    ("command_type", "CommandInfo_CommandType", lambda i: ("ENUM", (enum("System.Management.Automation.CommandTypes"), "Script", 1 << i % 9))),
    ("command_definition", "CommandInfo_Definition", lambda i: text("def%d" % i)),
    ("command_name", "CommandInfo_Name", lambda i: text("cmd%d" % i)),
    ("command_visibility", "CommandInfo_Visibility", lambda i: ("ENUM", (enum("System.Management.Automation.SessionStateEntryVisibility"), "Public", i % 2))),
]


def iteration(n):
    return ("pipeline_iteration_info", n, lambda i: ("LST", (ROC, [("I32", 7), ("I32", i)][:i % 3])))


ERR_OWN = [
    ("exception", "Exception", lambda i: exception("ex%d" % i)),
    ("target_object", "TargetObject", lambda i: text("target%d" % i)),
    ("invocation_info", "InvocationInfo", lambda i: obj(("System.Management.Automation.InvocationInfo", "System.Object"), "inv", [("MyCommand", text("my%d" % i)), ("HistoryId", ("I64", i))])),
    ("activity", "ErrorCategory_Activity", lambda i: text("act%d" % i)),
    ("reason", "ErrorCategory_Reason", lambda i: text("reason%d" % i)),
    ("target_name", "ErrorCategory_TargetName", lambda i: text("tname%d" % i)),
    ("target_type", "ErrorCategory_TargetType", lambda i: text("ttype%d" % i)),
    ("message", "ErrorCategory_Message", lambda i: text("cat%d" % i)),
    ("details_message", "ErrorDetails_Message", lambda i: text("details%d _x0041_" % i)),
    ("action", "ErrorDetails_RecommendedAction", lambda i: text("action%d" % i)),
    ("script_stacktrace", "ErrorDetails_ScriptStackTrace", lambda i: text("stack%d" % i)),
]
ERR_MUST = [("fq_error", "FullyQualifiedErrorId", lambda i: text("fq%d" % i)), ("category", "ErrorCategory_Category", lambda i: ("I32", i % 32))]
PROG = [
    ("activity", "Activity", lambda i: text("activity%d" % i)),
    ("activity_id", "ActivityId", lambda i: ("I32", i)),
    ("description", "StatusDescription", lambda i: text("desc%d" % i)),
    ("current_operation", "CurrentOperation", lambda i: text("op%d" % i)),
    ("parent_activity_id", "ParentActivityId", lambda i: ("I32", i - 2)),
    ("percent_complete", "PercentComplete", lambda i: ("I32", 50 + i)),
    ("progress_type", "Type", lambda i: ("ENUM", (enum("System.Management.Automation.ProgressRecordType"), "Processing", i % 2))),
    ("seconds_remaining", "SecondsRemaining", lambda i: ("I32", 1000 + i)),
]
INFO = [
    ("message_data", "MessageData", lambda i: text("info%d" % i)),
    ("source", "Source", lambda i: text("source%d" % i)),
    ("time_generated", "TimeGenerated", lambda i: ("DT", "2018-06-13T23:46:%02d.1316332+00:00" % (i % 60))),
    ("tags", "Tags", lambda i: ("LST", (STRLIST, [text("t%d" % i), text("PSHOST")][:i % 3]))),
    ("user", "User", lambda i: text("user%d" % i)),
    ("computer", "Computer", lambda i: text("computer%d" % i)),
    ("pid", "ProcessId", lambda i: ("U32", 3000000000 + i)),
    ("native_thread_id", "NativeThreadId", lambda i: ("U32", 10 + i)),
    ("managed_thread_id", "ManagedThreadId", lambda i: ("U32", 20 + i)),
]
INFO_OPT = [("write_information_stream", "WriteInformationStream", lambda i: ("B", i % 2 == 0))]
KIND = {
    "error": dict(mt=wire.ERROR, must=ERR_MUST, opt=ERR_OWN + INV + [iteration("PipelineIterationInfo")], types=("System.Management.Automation.ErrorRecord", "System.Object"), flag="SerializeExtendedInfo"),
    "progress": dict(mt=wire.PROGRESS, must=PROG, opt=[], types=(), flag=None),
    "information": dict(mt=wire.INFORMATION, must=INFO, opt=INFO_OPT, types=(), flag=None),
}
for k_ in ("Warning", "Verbose", "Debug"):
    KIND[k_.lower()] = dict(mt=getattr(wire, k_.upper()), must=[("message", "InformationalRecord_Message", lambda i: text("msg%d" % i))], opt=INV + [iteration("InformationalRecord_PipelineIterationInfo")],
                            types=("System.Management.Automation.%sRecord" % k_, "System.Management.Automation.InformationalRecord", "System.Object"), flag="InformationalRecord_SerializeInvocationInfo")


class Rec:
    """one record: kind, number, forms of optional fields ({attr: 'p' present, 'n' null, missing otherwise}), replaced values, unknown parts"""

    def __init__(self, kind, i, forms=(), over=None, odd=None):
        self.kind, self.i, self.forms, self.over, self.odd = kind, i, dict(forms), over or {}, odd

    def fields(self):
        k = KIND[self.kind]
        for a, n, f in k["must"]:
            yield a, n, self.over.get(a) or f(self.i)
        if k["flag"]:
            yield "invocation", k["flag"], ("B", any(a in self.forms for a, _, _ in INV))
        for a, n, f in k["opt"]:
            if a in self.over:
                yield a, n, self.over[a]
            elif a in self.forms:
                yield a, n, f(self.i) if self.forms[a] == "p" else ("Nil", None)

    def text(self):
        if self.kind in ("error", "warning", "verbose", "debug"):
            return "%s text %d \u00e9 <&>\n_x0041_" % (self.kind, self.i)
        return None

    def xml(self, n=None, w=None):
        w = w or W()
        k = KIND[self.kind]
        items = [(n_, v) for _, n_, v in self.fields()]
        types, props, t = k["types"], None, self.text()
        if self.odd is not None:
            items, types, props, t = ODD[self.odd](items, types, props, t)
        return w.value(("OBJ", (types, t, props, items)), n)

    def judge(self, got):
        want = {a: expect(v) for a, _, v in self.fields()}
        for a, _, _ in KIND[self.kind]["opt"]:
            want.setdefault(a, None)
        if self.kind == "error":
            want["extended_info_present"] = want["invocation"]
        have = {a: view(getattr(got, a, "no such attribute")) for a in want}
        if have != want:
            bad = [a for a in want if have[a] != want[a]]
            raise core.Violation("%s record: %s" % (self.kind, "; ".join("%s is %.120r, the server sent %.120r" % (a, have[a], want[a]) for a in bad[:3])), "field-" + bad[0], kind=self.kind)
        if self.text() is not None and self.odd != "no-text":
            same(str(got), self.text(), "text of the %s record" % self.kind, "text")
        elif self.kind == "information":
            m = want["message_data"] if self.odd != "with-text" else "a text"
            if isinstance(m, str) or isinstance(m, dict) and m.get("text"):
                same(str(got), m if isinstance(m, str) else m["text"], "text of the information record", "text")


def extra(n, v):
    return lambda items, types, props, t: (items + [(n, v)], types, props, t)


def first(n, v):
    return lambda items, types, props, t: ([(n, v)] + items, types, props, t)


ODD = {
    "extra-s": extra("Unknown", text("x")), "extra-first": first("writeErrorStream", ("B", True)), "extra-nil": extra("PSMessageDetails", ("Nil", None)),
    "extra-obj": extra("Unknown", obj(("Some.Type", "System.Object"), "t", [("A", text("a"))], [("B", ("LST", (LIST, [text("l")])))])),
    "extra-bare": first("Unknown", obj((), None, None, [("Message", text("inner"))])),
    "extra-list": first("Unknown", ("LST", (INTS, [("I32", 1)]))), "extra-dict": extra("Unknown", ("DCT", (("System.Collections.Hashtable", "System.Object"), [(text("k"), text("v"))]))),
    "extra-odd-name": extra("a_x0041_\u00e9 <b>'", text("x")),
    "extra-root": first("PSScriptRoot", text("c:\\")), "extra-many": lambda items, types, props, t: ([("U%d" % i, ("I64", i)) for i in range(30)] + items, types, props, t),
    "props": lambda items, types, props, t: (items, types, [("Message", text("p")), ("Exception", text("wrong"))], t),
    "no-types": lambda items, types, props, t: (items, (), props, t),
    "new-types": lambda items, types, props, t: (items, ("Some.New.Record",) + tuple(types), props, t),
    "reversed": lambda items, types, props, t: (items[::-1], types, props, t),
    "no-text": lambda items, types, props, t: (items, types, props, None),
    "with-text": lambda items, types, props, t: (items, types, props, t or "a text"),
    "rotated": lambda items, types, props, t: (items[len(items) // 2:] + items[:len(items) // 2], types, props, t),
}

CULT = ("System.Globalization.CultureInfo", "System.Object")
ANY = {
    "nil": ("Nil", None), "str": text("v"), "empty": text(""), "int": ("I32", -1), "long": ("I64", 1 << 40), "bool": ("B", False), "ver": ("Version", "1.2"), "ts": ("TS", "PT1S"), "sbk": ("SBK", "{ 1 }"),
    "list": ("LST", (LIST, [text("a"), ("Nil", None), ("LST", (LIST, [("I32", 1)]))])), "ints": ("LST", (INTS, [("I32", 1), ("I32", 2)])),
    "dict": ("DCT", (("System.Collections.Hashtable", "System.Object"), [(text("k"), text("v")), (("I32", 1), ("LST", (LIST, [])))])),
    "obj": obj(("System.Diagnostics.Process", "System.Object"), "proc", [("Id", ("I32", 4)), ("Next", obj(("X", "System.Object"), "x", [("Y", text("y"))]))], [("Note", text("n"))]),
    "bare": obj((), None, None, [("A", text("a"))]), "unknown-type": obj(("Deserialized.My.Class", "Deserialized.System.Object"), "mine", [("A", text("a"))]),
    "host-info": obj(("System.Management.Automation.HostInformationMessage", "System.Object"), "hello", [("Message", text("hello")), ("NoNewLine", ("B", False)), ("ForegroundColor", ("Nil", None))]),
}
# objects of types this client knows, without the parts it needs to build them (another version, a depth limit)
PARTIAL = {
    "culture": (obj(CULT, "en-US", [("Name", text("en-US")), ("LCID", text("1033"))]), "en-US"),
    "record": (obj(("Deserialized.System.Management.Automation.ErrorRecord", "Deserialized.System.Object"), "inner", [("FullyQualifiedErrorId", text("f"))]), "inner"),
    "warning": (obj(("Deserialized.System.Management.Automation.WarningRecord", "Deserialized.System.Management.Automation.InformationalRecord"), "careful", [("Message", text("careful"))]), "careful"),
    "param": (obj(("System.Management.Automation.ParameterMetadata", "System.Object"), "pm", [("Name", text("n"))]), "pm"),
    "coords": (obj(("System.Management.Automation.Host.Coordinates", "System.ValueType", "System.Object"), "1,2", [("X", text("1"))]), "1,2"),
    "cred": (obj(("System.Management.Automation.PSCredential", "System.Object"), "cred", [("UserName", text("u"))]), "cred"),
    "measure": (obj(("Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo", "System.Object"), "m", None, [("Average", text("1"))]), "m"),
    "enum": (obj(("System.Management.Automation.CommandOrigin", "System.Enum", "System.ValueType", "System.Object"), "Odd"), None),
    "color": (obj(("System.ConsoleColor", "System.Enum", "System.ValueType", "System.Object"), "Red"), None),
    "info": (obj(("System.Management.Automation.InformationRecord", "System.Object"), "i", [("MessageData", text("x"))]), "i"),
}


def deliver(recs, frag=None, together=True, final=None, extra_out=()):
    """the batch through a real pipeline; returns the pipeline"""
    from pypsrp.exceptions import InvalidPipelineStateError
    from pypsrp.powershell import PowerShell
    srv = Batch()
    srv.recs, srv.piece, srv.together, srv.final = recs, frag, together, final
    srv.install()
    pool = drive.pool()
    pool.open()
    ps = PowerShell(pool)
    ps.add_cmdlet("Get-X")
    out = ps.invoke() or []
    state = int(ps.state)
    pool.close()
    need(not srv.errors, "request the server cannot accept: %s" % (srv.errors[:2],), "requests")
    same(state, 5 if final else 4, "final state", "state")
    return ps, list(out)


class Batch(server.FullServer):
    recs = ()
    piece = None
    together = True
    final = None

    def on_pipe_message(self, sh, p, m):
        if m.type != wire.CREATE_PIPELINE:
            return
        kw = {"frag_size": self.piece} if self.piece else {}
        for r in self.recs:
            if isinstance(r, str):
                self.send(sh, p, wire.OUTPUT, "<S>%s</S>" % r, **kw)
            else:
                self.send(sh, p, KIND[r.kind]["mt"], r.xml(), **kw)
        if self.final is None:
            self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(4), **kw)
        else:
            w = W()
            self.send(sh, p, wire.PIPE_STATE, w.obj(lambda: '<MS><I32 N="PipelineState">5</I32>%s</MS>' % self.final.xml("ExceptionAsErrorRecord", w)), **kw)

    def take(self, req, q_):
        if not self.together:
            return super().take(req, q_)
        return [b"".join(q_.popleft() for _ in range(len(q_)))] if q_ else []


def judge(recs, ps, out, final=None):
    want = {s: [r for r in recs if not isinstance(r, str) and r.kind == s] for s in drive.STREAMS}
    if final:
        want["error"] = want["error"] + [final]
    for s in drive.STREAMS:
        same(len(getattr(ps.streams, s)), len(want[s]), "number of %s records" % s, "count")
        for got, r in zip(getattr(ps.streams, s), want[s]):
            r.judge(got)
    same(out, [r for r in recs if isinstance(r, str)], "outputs of the batch", "output")


def batch(rep, case, recs, **kw):
    def fn():
        ps, out = deliver(recs, **kw)
        judge(recs, ps, out, kw.get("final"))
        return len(recs), any(not isinstance(r, str) and (r.forms or r.over or r.odd) for r in recs)
    rep.execute(fn, case=case, choices=lambda: [repr(vars(r)) if not isinstance(r, str) else r for r in recs[:4]])


class Batches:
    """collects records into batches of a readable size"""

    def __init__(self, rep, case, size=24):
        self.rep, self.case, self.size, self.recs = rep, case, size, []

    def add(self, *a, **kw):
        self.recs.append(Rec(*a, **kw))
        if len(self.recs) == self.size:
            self.flush()

    def flush(self):
        if self.recs:
            batch(self.rep, self.case, self.recs)
        self.recs = []


def attrs(kind):
    return [a for a, _, _ in KIND[kind]["opt"]]


def run_own(case, rep):
    """every subset of the error record's own fields, with and without invocation details"""
    own = [a for a, _, _ in ERR_OWN]
    b = Batches(rep, case)
    for n in range(case[1], 1 << len(own), 8):
        forms = {a: "p" for i, a in enumerate(own) if n >> i & 1}
        for more in ({}, {a: "p" for a in attrs("error") if a not in own}):
            b.add("error", n % 50, dict(forms, **more))
    b.flush()


def run_inv(case, rep):
    """every subset of half of the invocation fields"""
    kind, half, rest = case[1:4]
    inv = [a for a in attrs(kind) if a not in [x for x, _, _ in ERR_OWN]]
    part = inv[:10] if half == 0 else inv[10:]
    b = Batches(rep, case)
    for n in range(1 << len(part)):
        forms = {a: "p" for i, a in enumerate(part) if n >> i & 1}
        if rest:
            forms.update({a: "p" for a in inv if a not in part})
        b.add(kind, n % 50, forms)
    b.flush()


def run_pairs(case, rep):
    """every pair of optional fields alone, and every pair missing or null"""
    kind = case[1]
    at = attrs(kind)
    b = Batches(rep, case)
    for i, (x, y) in enumerate(itertools.combinations_with_replacement(at, 2)):
        b.add(kind, i % 50, {x: "p", y: "p"})
        b.add(kind, i % 50, {a: "p" for a in at if a not in (x, y)})
        b.add(kind, i % 50, {a: "n" if a in (x, y) else "p" for a in at})
        b.add(kind, i % 50, {x: "n", y: "p"})
    b.flush()


def run_three(case, rep):
    """present, null or missing for six neighbouring fields"""
    kind, start = case[1:3]
    at = attrs(kind)
    part = at[start:start + 6]
    b = Batches(rep, case)
    for i, fs in enumerate(itertools.product("pn-", repeat=len(part))):
        b.add(kind, i % 50, {a: f for a, f in zip(part, fs) if f != "-"})
    b.flush()


NULLABLE = {"progress": ["activity", "description", "current_operation"], "information": ["message_data", "source", "tags", "user", "computer"]}


def run_nulls(case, rep):
    """mandatory fields that may be null, every subset; all values of small fields"""
    for kind, names in NULLABLE.items():
        b = Batches(rep, case)
        for n in range(1 << len(names)):
            for i in range(4):
                for forms in ({}, {"write_information_stream": "p"}, {"write_information_stream": "n"}):
                    if kind == "progress" and forms:
                        continue
                    b.add(kind, i, forms, {a: ("Nil", None) for j, a in enumerate(names) if n >> j & 1})
        b.flush()
    b = Batches(rep, case)
    for n in range(512):
        b.add("warning", n, {}, {"command_type": ("ENUM", (enum("System.Management.Automation.CommandTypes"), "x", n))})
    for kind in KIND:
        for i in range(60):
            b.add(kind, i, {a: "p" for a in attrs(kind)})
    b.flush()


def dynamic(kind):
    if kind == "error":
        return ["exception", "target_object"]
    return ["message_data"] if kind == "information" else []


def run_any(case, rep):
    """every value in every place that can hold any value"""
    for n, v in ANY.items():
        for kind in KIND:
            recs = [Rec(kind, 1, {}, {a: v}) for a in dynamic(kind)]
            if KIND[kind]["flag"]:
                recs.append(Rec(kind, 2, {}, {"invocation_bound_parameters": ("DCT", (BOUND, [(text("a"), v), (text("b"), v)]))}))
                recs.append(Rec(kind, 3, {}, {"invocation_unbound_arguments": ("LST", (LIST, [v, text("x"), v]))}))
            for r in recs:
                batch(rep, case, ["before", r, "after"])
            if kind == "error":
                for v2 in ANY.values():
                    batch(rep, case, [Rec(kind, 1, {"activity": "p"}, {"exception": v, "target_object": v2}), "after"])


def run_partial(case, rep):
    """values of known types that lack parts: the record and the batch survive"""
    for n, (v, t) in PARTIAL.items():
        for kind in KIND:
            places = {a: v for a in dynamic(kind)}
            if kind == "error":
                places["exception"] = obj(("System.Exception", "System.Object"), "System.Exception: x", [("Message", text("m")), ("ErrorRecord", v)])
            if KIND[kind]["flag"]:
                places["invocation_unbound_arguments"] = ("LST", (LIST, [text("u"), v]))
                places["invocation_bound_parameters"] = ("DCT", (BOUND, [(text("u"), v)]))
            for a, val in places.items():
                for pos in range(3):
                    def fn():
                        rec = Rec(kind, 1, {"invocation_line": "p"} if KIND[kind]["flag"] else {}, {a: val})
                        recs = ["one", Rec("warning", 5, {"invocation_name": "p"})]
                        recs.insert(pos, rec)
                        ps, out = deliver(recs)
                        same(out, ["one"], "outputs of the batch", "output")
                        mine = getattr(ps.streams, kind)
                        same([len(getattr(ps.streams, s)) for s in drive.STREAMS], [sum(1 for r in recs if not isinstance(r, str) and r.kind == s) for s in drive.STREAMS], "records of the batch", "count")
                        got = mine[[r for r in recs if not isinstance(r, str) and r.kind == kind].index(rec)]
                        for other, r in zip(getattr(ps.streams, "warning"), [r for r in recs if not isinstance(r, str) and r.kind == "warning"]):
                            if r is not rec:
                                r.judge(other)
                        x = getattr(got, a)
                        if a == "exception":
                            x = x.adapted_properties["ErrorRecord"]
                        elif a.startswith("invocation_un"):
                            same(x[0], "u", "argument", "argument")
                            x = x[1]
                        elif a.startswith("invocation_b"):
                            x = x["u"]
                        if t is not None:
                            same(str(x), t, "text of the value", "value-text")
                        # the other fields are intact
                        Rec(kind, 1, rec.forms).judge_but(got, a)
                        return "survived", True
                    rep.execute(fn, case=case, choices=lambda: [n, kind, a, pos])


def judge_but(self, got, skip):
    for a, _, v in self.fields():
        if a not in (skip, "invocation"):
            same(view(getattr(got, a)), expect(v), a, "field-" + a)


Rec.judge_but = judge_but


def run_odd(case, rep):
    """unknown parts leave everything else as it was"""
    for n in ODD:
        for kind in KIND:
            for forms in ({}, {a: "p" for a in attrs(kind)}, {a: "n" for a in attrs(kind)}):
                if n == "no-types" and kind == "error":
                    pass
                batch(rep, case, ["before", Rec(kind, 3, forms, None, n), Rec(kind, 4, forms), "after"])


FORMS = ["error0", "error1", "warning0", "warning1", "verbose1", "debug0", "progress0", "information0", "out"]


def form(f, i):
    if f == "out":
        return "out%d" % i
    kind, full = f[:-1], f[-1] == "1"
    return Rec(kind, i, {a: "p" for a in attrs(kind)} if full else {})


def run_seq(case, rep):
    n, start = case[1:3]
    for seq in itertools.product(FORMS, repeat=n):
        if seq[0] != start:
            continue
        recs = [form(f, i + 1) for i, f in enumerate(seq)]
        ways = [dict(), dict(frag=200, together=False), dict(together=False)] if n < 3 or DEEP and n < 4 else [dict(frag=300, together=True)]
        for kw in ways:
            batch(rep, case, recs, **kw)


def run_state(case, rep):
    """the error record of a failed pipeline"""
    own = [a for a, _, _ in ERR_OWN]
    at = attrs("error")
    recs = [Rec("error", 1, {}), Rec("error", 2, {a: "p" for a in at}), Rec("error", 3, {a: "n" for a in at}), Rec("error", 4, {a: "p" for a in own})]
    recs += [Rec("error", i, {x: "p"}) for i, x in enumerate(at)] + [Rec("error", i, {a: "p" for a in at if a != x}) for i, x in enumerate(at)]
    recs += [Rec("error", 5, {}, None, o) for o in ODD if o != "no-types"] + [Rec("error", 6, {}, {"target_object": v}) for v in ANY.values()]
    for r in recs:
        for before in ([], ["out"], [Rec("error", 9, {"action": "p"})]):
            batch(rep, case, before, final=r)


# ---------------------------------------------------------------- records and events outside a pipeline

class PoolSrv(server.FullServer):
    at, texts, events, batch = {}, [], 0, 1

    def say(self, sh, point):
        for kind, text in self.at.get(point, ()):
            if kind == "w":
                self.texts.append(text)
                self.send(sh, None, wire.WARNING, clixml.info_record("Warning", text))
            else:
                self.events += 1
                self.send(sh, None, wire.USER_EVENT, clixml.user_event(self.events, text))

    def opened(self, sh):
        sh.opened = True
        self.send(sh, None, wire.SESSION_CAPABILITY, clixml.session_capability(self.protocol))
        self.say(sh, 0)
        self.send(sh, None, wire.APP_PRIVATE, clixml.app_private())
        self.say(sh, 1)
        self.send(sh, None, wire.POOL_STATE, clixml.pool_state(2))
        self.say(sh, 2)

    def on_pool_other(self, sh, m):
        self.say(sh, 3)
        super().on_pool_other(sh, m)
        self.say(sh, 4)

    def take(self, req, q_):
        return [q_.popleft() for _ in range(min(self.batch, len(q_)))]


POOLED = [(), (("w", "one"),), (("w", "a <b>"), ("w", "a <b>")), (("e", "x"), ("w", "after"), ("e", "y")), (("e", "only"),)]


def pooled(at, batch):
    """Warnings of the pool itself are given to the caller once each, in order, as the server worded them; what is asked of the pool is unaffected."""
    import warnings
    from pypsrp.powershell import PowerShell, RunspacePoolWarning
    s = PoolSrv()
    s.at, s.texts, s.batch = at, [], batch
    s.script = [(wire.OUTPUT, "<S>o</S>"), (wire.PIPE_STATE, clixml.pipeline_state(4))]
    s.install(horizon=300)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        p = drive.pool()
        p.open()
        same(p.state, 2, "pool state")
        # everything sent before the answer of this request has arrived when the answer has
        p.reset_runspace_state()
        ps = PowerShell(p)
        ps.add_cmdlet("A")
        same(ps.invoke(), ["o"], "output")
        same(len(ps.streams.warning), 0, "warnings of the pipeline", "warning of the pool in a pipeline")
        p.get_available_runspaces()
        p.close()
    same(s.errors, [], "server errors")
    got = [str(w.message) for w in seen if issubclass(w.category, RunspacePoolWarning)]
    late = sum(1 for k, _ in at.get(4, ()) if k == "w")
    same(got, s.texts[:len(s.texts)] if len(got) == len(s.texts) else s.texts[:max(len(s.texts) - late, len(got))], "warnings of the pool", "warnings of the pool")
    late_e = sum(1 for k, _ in at.get(4, ()) if k == "e")
    need(s.events - late_e <= len(p.user_events) <= s.events, "%d events of %d" % (len(p.user_events), s.events), "events of the pool")
    same([e.event_id for e in p.user_events], list(range(1, len(p.user_events) + 1)), "events of the pool")
    return (repr(at), batch), bool(s.texts or s.events)


def run_pooled(case, rep):
    for batch in (case[1],):
        for x, y in itertools.product(POOLED, repeat=2):
            for i, j in itertools.combinations(range(5), 2):
                at = {i: x, j: y}
                rep.execute(lambda: pooled(at, batch), case=case, choices=lambda: [at, batch])


EVENT = [("event_id", "PSEventArgs.EventIdentifier", "<I32%s>5</I32>", 5), ("source_id", "PSEventArgs.SourceIdentifier", "<S%s>My.Event</S>", "My.Event"), ("time", "PSEventArgs.TimeGenerated", "<DT%s>2018-01-01T00:00:00Z</DT>", "2018-01-01T00:00:00Z"),
         ("sender", "PSEventArgs.Sender", "<S%s>who</S>", "who"), ("args", "PSEventArgs.SourceArgs", '<Obj%s RefId="7"><TN RefId="3"><T>System.Object[]</T><T>System.Array</T><T>System.Object</T></TN><LST><I32>1</I32><S>b</S></LST></Obj>', [1, "b"]),
         ("data", "PSEventArgs.MessageData", '<Obj%s RefId="8"><TN RefId="4"><T>System.Collections.Hashtable</T><T>System.Object</T></TN><DCT><En><S N="Key">k</S><I32 N="Value">1</I32></En></DCT></Obj>', {"k": 1}),
         ("computer", "PSEventArgs.ComputerName", "<S%s>host</S>", "host"), ("runspace_id", "PSEventArgs.RunspaceId", "<G%s>fd4a2f28-0001-4c3a-9bf1-111111111111</G>", "fd4a2f28-0001-4c3a-9bf1-111111111111")]


def event(null):
    """An event of the session has every field the server sent."""
    s = server.FullServer()
    s.install(horizon=300)
    doc = '<Obj RefId="0"><MS>%s</MS></Obj>' % "".join('<Nil N="%s" />' % n if i in null else x % (' N="%s"' % n) for i, (_, n, x, _) in enumerate(EVENT))
    p = drive.pool()
    p.open()
    s.send(list(s.shells.values())[0], None, wire.USER_EVENT, doc)
    p.reset_runspace_state()
    same(len(p.user_events), 1, "events")
    e = p.user_events[0]
    for i, (a, n, _, v) in enumerate(EVENT):
        g = getattr(e, a)
        g = g if a not in ("time", "runspace_id") or g is None else v if a == "time" else str(g)
        same(g, None if i in null else v, "field %s of the event" % a, "field of an event")
    p.close()
    return null, True


def run_event(case, rep):
    for n in range(len(EVENT) + 1):
        for null in itertools.combinations(range(len(EVENT)), n):
            rep.execute(lambda: event(null), case=case, choices=lambda: null)


def cases(tier):
    deep = tier == "thorough"
    out = [["own", i] for i in range(8)]
    out += [["inv", k, h, r] for k in (KIND if deep else ("error", "debug")) if KIND[k]["flag"] for h in (0, 1) for r in (0, 1)]
    out += [["pairs", k] for k in KIND]
    out += [["three", k, s] for k in (KIND if deep else ("error", "verbose")) for s in range(0, max(1, len(KIND[k]["opt"]) - 5), 1 if deep else 4)]
    out += [["nulls"], ["any"], ["partial"], ["odd"], ["state"], ["pooled", 1], ["pooled", 3], ["pooled", 9], ["event"]]
    out += [["seq", n, f] for n in range(1, 5 if deep else 4) for f in FORMS]
    return out


def run_case(case, rep):
    {"own": run_own, "inv": run_inv, "pairs": run_pairs, "three": run_three, "nulls": run_nulls, "any": run_any, "partial": run_partial, "odd": run_odd, "seq": run_seq, "state": run_state, "pooled": run_pooled, "event": run_event}[case[0]](case, rep)
