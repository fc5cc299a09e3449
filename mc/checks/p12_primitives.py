"""P12: primitive values keep their type and value in both directions, at every position."""
import base64
import itertools
import math
import os
import struct
import uuid
import xml.etree.ElementTree as ET

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P12"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of tag x boundary value x position x direction (and complete ranges of the 8 and 16 bit types) through the real serializer against an independent strict codec of the protocol's primitive types"
LEVEL_NOTE = "Complete over every primitive tag, every position and the stated values; By/SB/U16/I16/C complete over their whole range at top level."
RULE = "one evaluation = one primitive value at one position in one direction; non-trivial always, each names a distinct (tag, value, position)"
ASSUMPTIONS = ["values given under an explicit tag are within the range of that protocol type", "DateTime, duration, decimal and version values are texts, as documented by the library"]

BOUND = {}
for t, (lo, hi) in clixml.INT.items():
    BOUND[t] = sorted({lo, lo + 1, -1 if lo < 0 else 0, 0, 1, 10, 127, hi // 2, hi - 1, hi})
FLOATS = [0.0, -0.0, 1.0, -1.5, 10.0323, 0.1, 1e16, 1e-7, 123456789.125, 3.4028234663852886e38, 1.5e-45, float("inf"), float("-inf"), float("nan")]
DOUBLES = FLOATS + [1e300, -1e300, 5e-324, 1.7976931348623157e308, 2 ** 53 + 1.0]
TEXTS = ["", "a", " ", "true", "1", "\u00e9\U0001F600", "a\nb", "<&>\"'", "_x0041_", "null", "x" * 3000]
GUIDS = [uuid.UUID(int=0), uuid.UUID(int=2 ** 128 - 1), uuid.UUID("01020304-0506-0708-090a-0b0c0d0e0f10")]
BYTES = [b"", b"\x00", b"abc", bytes(range(256)), b"\xff" * 3, b"\xef\xbb\xbf", b"x" * 5000]
VALUES = {"S": TEXTS, "URI": TEXTS, "XD": TEXTS, "SBK": TEXTS, "B": [True, False], "Sg": FLOATS, "Db": DOUBLES, "BA": BYTES, "G": GUIDS,
          "C": ["a", "\x00", "\n", "\u00e9", "\uffff", "\ud800", " ", "0"],
          "DT": ["2018-01-01T00:00:00.0000000+00:00", "2009-06-17T10:57:23.1578277-07:00", "0001-01-01T00:00:00", "9999-12-31T23:59:59.9999999Z"],
          "TS": ["PT9.0269026S", "P1DT2H", "-PT1S", "PT0S"], "D": ["0", "1.10", "-79228162514264337593543950335", "0.0000000000000000000000000001"],
          "Version": ["1.0", "0.0", "2.3.4.5", "2147483647.0.0.1"]}
VALUES.update(BOUND)


def text_of(t, v):
    """The protocol's textual form of a value, as a server writes it."""
    if t in clixml.STR:
        return clixml.escape(v)
    if t == "B":
        return "true" if v else "false"
    if t == "C":
        return str(ord(v))
    if t in ("Sg", "Db"):
        return "NaN" if math.isnan(v) else "INF" if v == math.inf else "-INF" if v == -math.inf else repr(v)
    if t == "BA":
        return base64.b64encode(v).decode()
    return str(v)


def py(t, v):
    """The documented Python value of a primitive from the server."""
    return v


def eq(t, got, want):
    if t in ("Sg", "Db"):
        return type(got) is float and (got == want and math.copysign(1, got) == math.copysign(1, want) or math.isnan(got) and math.isnan(want))
    return type(got) is type(want) and got == want


def node(t, v):
    """What the strict decoder must find for a value sent."""
    if t == "C":
        return ("C", ord(v))
    if t in ("Sg", "Db"):
        return (t, repr(v))
    if t in ("G",):
        return (t, str(v))
    return (t, v)


XSD_FLOAT = __import__("re").compile(r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?|INF|-INF|NaN")


def enc(el):
    return ET.tostring(el, encoding="utf-8", method="xml")


def floats_ok(xml):
    for e in ET.fromstring(xml).iter():
        if e.tag in ("Sg", "Db"):
            need(XSD_FLOAT.fullmatch(e.text or ""), "<%s>%s is not a number to an XML reader" % (e.tag, e.text), "float in a form the server cannot read")
            if e.tag == "Sg" and e.text not in ("INF", "-INF", "NaN"):
                need(abs(float(e.text)) < 3.4028235677973366e38, "<Sg>%s is beyond the Single range" % e.text, "float beyond the range of its type")


POS = ["top", "meta", "list", "key", "value", "ext", "ad", "nested", "stack", "queue", "ie", "param", "tuple"]


def send(s, v, pos, t):
    """v is a TaggedValue or a bare value; returns the decoded primitive at that position."""
    import queue
    from pypsrp.complex_objects import CommandParameter, DictionaryMeta, GenericComplexObject, ListMeta, ObjectMeta, QueueMeta, StackMeta
    plain = v
    if pos == "top":
        x = enc(s.serialize(v))
        n = clixml.decode(x)
    elif pos == "meta":
        raw = v.value if hasattr(v, "tag") else v
        el = s.serialize(raw, ObjectMeta(t, name="Nm", optional=False))
        same(el.attrib.get("N"), "Nm", "name of a named value")
        x = enc(el)
        n = clixml.decode(x)
    elif pos == "list":
        x = enc(s.serialize([1, v, "z"]))
        n = clixml.decode(x).cont[1][1]
    elif pos == "key":
        x = enc(s.serialize({v: "val"}))
        n = clixml.decode(x).cont[1][0][0]
    elif pos == "value":
        x = enc(s.serialize({"k": v, "l": 2}))
        n = clixml.decode(x).cont[1][0][1]
    elif pos in ("ext", "ad"):
        o = GenericComplexObject()
        (o.extended_properties if pos == "ext" else o.adapted_properties)["p"] = v
        x = enc(s.serialize(o))
        d = clixml.decode(x)
        n = (d.ms if pos == "ext" else d.props)["p"]
    elif pos == "nested":
        x = enc(s.serialize([[{"a": [v]}]]))
        n = clixml.decode(x).cont[1][0].cont[1][0].cont[1][0][1].cont[1][0]
    elif pos == "stack":
        x = enc(s.serialize(["bottom", v], StackMeta()))
        n = clixml.decode(x).cont[1][0]
    elif pos == "queue":
        q = queue.Queue()
        q.put("first")
        q.put(v)
        x = enc(s.serialize(q))
        n = clixml.decode(x).cont[1][1]
    elif pos == "ie":
        x = enc(s.serialize([v], ListMeta("IE")))
        n = clixml.decode(x).cont[1][0]
    elif pos == "param":
        x = enc(s.serialize(CommandParameter(name="n", value=v)))
        n = clixml.decode(x).ms["V"]
    elif pos == "tuple":
        x = enc(s.serialize((("k", v), ("k2", v)), DictionaryMeta()))
        n = clixml.decode(x).cont[1][1][1]
    floats_ok(x)
    return n


def wrap(t, txt, pos):
    el = "<%s%%s>%s</%s>" % (t, txt, t) if t != "Nil" else "<Nil%s />"
    tn = '<TN RefId="0"><T>%s</T><T>System.Object</T></TN>'
    if pos == "top":
        return el % "", lambda o: o
    if pos == "list":
        return '<Obj RefId="0">%s<LST><I32>1</I32>%s<S>z</S></LST></Obj>' % (tn % "System.Collections.ArrayList", el % ""), lambda o: o[1]
    if pos == "array":
        return '<Obj RefId="0">%s<LST>%s</LST></Obj>' % (tn % "System.Object[]", el % ""), lambda o: o[0]
    if pos == "value":
        return '<Obj RefId="0">%s<DCT><En><S N="Key">k</S>%s</En></DCT></Obj>' % (tn % "System.Collections.Hashtable", el % ' N="Value"'), lambda o: o["k"]
    if pos == "key":
        return '<Obj RefId="0">%s<DCT><En>%s<S N="Value">v</S></En></DCT></Obj>' % (tn % "System.Collections.Hashtable", el % ' N="Key"'), lambda o: list(o)[0]
    if pos == "ext":
        return '<Obj RefId="0"><MS><S N="o">v</S>%s</MS></Obj>' % (el % ' N="p"'), lambda o: o.extended_properties["p"]
    if pos == "ad":
        return '<Obj RefId="0"><Props>%s<S N="o">v</S></Props></Obj>' % (el % ' N="p"'), lambda o: o.adapted_properties["p"]
    if pos == "box":
        return '<Obj RefId="0">%s<MS><S N="o">v</S></MS></Obj>' % (el % ""), lambda o: o.property_sets[0]
    if pos in ("box-typed", "box-named", "box-in-list"):
        own = "".join("<T>%s</T>" % n for n in (["Added.Name"] if pos == "box-named" else []) + ([DOTNET[t]] if t in DOTNET else []) + ["System.ValueType", "System.Object"])
        obj = '<Obj RefId="7"><TN RefId="0">%s</TN>%s<ToString>txt</ToString><MS><S N="o">v</S></MS></Obj>' % (own, el % "")

        def get(o):
            if pos == "box-in-list":
                need(type(o) is list and len(o) == 2 and o[1] == "z", "list with an extended primitive reads as %r" % (o,), "neighbour of an extended primitive")
                o = o[0]
            need(hasattr(o, "property_sets"), "extended primitive reads as %r" % (o,), "extended primitive")
            same((o.extended_properties, o.to_string, len(o.property_sets)), ({"o": "v"}, "txt", 1), "extended primitive")
            return o.property_sets[0]
        if pos == "box-in-list":
            obj = '<Obj RefId="0"><TN RefId="9"><T>System.Object[]</T><T>System.Array</T><T>System.Object</T></TN><LST>%s<S>z</S></LST></Obj>' % obj
        return obj, get
    if pos == "queue":
        return '<Obj RefId="0">%s<QUE>%s</QUE></Obj>' % (tn % "System.Collections.Queue", el % ""), lambda o: o.get(block=False)
    if pos == "stack":
        return '<Obj RefId="0">%s<STK>%s</STK></Obj>' % (tn % "System.Collections.Stack", el % ""), lambda o: o[0]
    if pos == "error-target":
        return clixml.error_record("m").replace('<Nil N="TargetObject" />', el % ' N="TargetObject"'), lambda o: o.target_object
    raise core.HarnessError(pos)


DOTNET = {"S": "System.String", "C": "System.Char", "B": "System.Boolean", "DT": "System.DateTime", "By": "System.Byte", "SB": "System.SByte", "U16": "System.UInt16", "I16": "System.Int16", "U32": "System.UInt32", "I32": "System.Int32",
          "U64": "System.UInt64", "I64": "System.Int64", "Sg": "System.Single", "Db": "System.Double", "D": "System.Decimal", "G": "System.Guid", "URI": "System.Uri", "Version": "System.Version", "XD": "System.Xml.XmlDocument", "SBK": "System.Management.Automation.ScriptBlock", "TS": "System.TimeSpan", "BA": "System.Byte[]"}
RPOS = ["box-typed", "box-named", "box-in-list", "top", "list", "array", "value", "key", "ext", "ad", "box", "queue", "stack", "error-target"]


def do_send(s, t, v, pos):
    from pypsrp.serializer import TaggedValue
    if t == "C" and v == "\ud800" and pos == "never":
        return None, False
    n = send(s, TaggedValue(t, v), pos, t)
    want = node(t, v)
    need(eq("", n[0], want[0]) and (n[1] == want[1]), "%s %r sent at %s arrives as %r" % (t, v, pos, n), "primitive sent at %s does not arrive as its type and value" % pos)
    return (t, repr(v), pos), True


def do_recv(s, t, v, pos):
    x, get = wrap(t, text_of(t, v), pos)
    got = get(s.deserialize(x))
    need(eq(t, got, py(t, v)), "%s %r received at %s as %r" % (t, v, pos, got), "primitive received at %s is not its value" % pos)
    return (t, repr(v), pos), True


def do_round(s, t, v):
    from pypsrp.serializer import TaggedValue
    x = enc(s.serialize(TaggedValue(t, v))).decode()
    got = s.deserialize(x)
    need(eq(t, got, py(t, v)), "%s %r reads back as %r" % (t, v, got), "own encoding does not read back")
    return (t, repr(v)), True


INFER = [("B", [True, False]), ("S", TEXTS), ("G", GUIDS), ("BA", BYTES),
         ("I32", [0, 1, -1, 2 ** 31 - 1, -2 ** 31, 65536]), ("I64", [2 ** 31, -2 ** 31 - 1, 2 ** 63 - 1, -2 ** 63]),
         ("Sg", FLOATS), ("Db", [1e300, -1e300, 3.5e38])]


def infer(s, t, v, pos):
    n = send(s, v, pos, "*")
    want = node(t, v)
    need(n[0] == want[0] and n[1] == want[1], "%r sent at %s arrives as %r, expected %r" % (v, pos, n, want), "value sent without a tag arrives with the wrong type")
    return (t, repr(v), pos), True


def nulls(s, t, pos):
    """None is null everywhere, whatever its tag."""
    from pypsrp.serializer import TaggedValue
    v = None if t == "*" else TaggedValue(t, None)
    n = send(s, v, pos, t)
    need(n == ("Nil",), "null tagged %s at %s arrives as %r" % (t, pos, n), "null is not sent as null")
    return (t, pos), True


def optional(s, t):
    from pypsrp.complex_objects import ObjectMeta
    need(s.serialize(None, ObjectMeta(t, optional=True)) is None, "an absent optional value is sent")
    n = clixml.decode(enc(s.serialize(None, ObjectMeta(t, name="X", optional=False))))
    same(n, ("Nil",), "absent mandatory value")
    return (t,), True


def null_recv(s, pos):
    x, get = wrap("Nil", "", pos)
    got = get(s.deserialize(x))
    need(got is None, "null at %s received as %r" % (pos, got), "null is not received as null")
    return (pos,), True


def session():
    """All of it through a session: arguments, parameters, input, output."""
    from pypsrp.powershell import PowerShell
    from pypsrp.serializer import TaggedValue
    s = server.FullServer()
    flat = [(t, v) for t in VALUES for v in VALUES[t]]
    s.script = [(wire.OUTPUT, "<%s>%s</%s>" % (t, text_of(t, v), t)) for t, v in flat] + [(wire.OUTPUT, "<Nil />"), (wire.PIPE_STATE, clixml.pipeline_state(4))]
    s.install(horizon=3000)
    p = drive.pool()
    p.open()
    ps = PowerShell(p)
    ps.add_cmdlet("C")
    for i, (t, v) in enumerate(flat):
        ps.add_argument(TaggedValue(t, v))
        ps.add_parameter("P%d" % i, TaggedValue(t, v))
    ps.add_argument(None).add_parameter("N", None)
    out = ps.invoke([TaggedValue(t, v) for t, v in flat])
    same(len(out), len(flat) + 1, "output objects")
    for o, (t, v) in zip(out, flat):
        need(eq(t, o, py(t, v)), "output %s %r received as %r" % (t, v, o), "primitive received as output is not its value")
    need(out[-1] is None, "null output received as %r" % out[-1])
    pipe = list(list(s.shells.values())[0].pipes.values())[0]
    args = pipe.created.ms["PowerShell"].ms["Cmds"].cont[1][0].ms["Args"].cont[1]
    want = [x for i, (t, v) in enumerate(flat) for x in ((None, node(t, v)), ("P%d" % i, node(t, v)))] + [(None, ("Nil",)), ("N", ("Nil",))]
    got = [(clixml.plain(a.ms["N"]), a.ms["V"]) for a in args]
    for g, w in zip(got, want):
        need(g == w, "argument %r arrives as %r" % (w, g), "primitive argument does not arrive as its type and value")
    same(len(got), len(want), "arguments")
    for b, (t, v) in zip(pipe.inputs, flat):
        need(clixml.decode(b) == node(t, v), "input %s %r arrives as %r" % (t, v, clixml.decode(b)), "primitive input does not arrive as its type and value")
    same(len(pipe.inputs), len(flat), "input objects")
    same(s.errors, [], "server errors")
    return (len(flat),), True


def cases(tier):
    out = [["session"]]
    for t in VALUES:
        out.append(["tag", t])
    out.append(["infer"])
    out.append(["null"])
    for t in ("By", "SB", "U16", "I16", "C"):
        lo, hi = clixml.INT.get(t, (0, 65535))
        for a in range(lo, hi + 1, 8192):
            out.append(["range", t, a, min(a + 8192, hi + 1)])
    return out


def run_case(case, rep):
    from pypsrp.serializer import Serializer, TaggedValue
    s = Serializer()
    k = case[0]
    if k == "tag":
        t = case[1]
        for v in VALUES[t]:
            for pos in POS:
                rep.execute(lambda: do_send(s, t, v, pos), case=case, choices=lambda: ["send", repr(v), pos])
            for pos in RPOS:
                rep.execute(lambda: do_recv(s, t, v, pos), case=case, choices=lambda: ["recv", repr(v), pos])
            rep.execute(lambda: do_round(s, t, v), case=case, choices=lambda: ["round", repr(v)])
    elif k == "infer":
        for t, vs in INFER:
            for v in vs:
                for pos in POS:
                    rep.execute(lambda: infer(s, t, v, pos), case=case, choices=lambda: [repr(v), pos])
    elif k == "null":
        for t in ["*"] + list(VALUES):
            for pos in POS:
                if pos == "meta" and t == "*":
                    continue
                rep.execute(lambda: nulls(s, t, pos), case=case, choices=lambda: [t, pos])
            rep.execute(lambda: optional(s, t), case=case, choices=lambda: ["optional", t])
        for pos in RPOS:
            rep.execute(lambda: null_recv(s, pos), case=case, choices=lambda: ["recv", pos])
    elif k == "range":
        t = case[1]
        for i in range(case[2], case[3]):
            v = chr(i) if t == "C" else i
            rep.execute(lambda: (do_send(s, t, v, "top"), do_recv(s, t, v, "top"), do_round(s, t, v), ((t, i), True))[3], case=case, choices=lambda: i)
    else:
        rep.execute(session, case=case)
