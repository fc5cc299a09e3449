"""P14: serializing does not change what it is given, repeats exactly, and no earlier call influences a later one."""
import itertools
import os
import pickle
import queue
import uuid
import xml.etree.ElementTree as ET

from mc import clixml, core, drive, env
from mc.core import need, same

PROP = "P14"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all operation histories of length three over a table of values, metadata and documents, on one and two serializers, each result compared with that of the same operation run alone in a process of its own"
LEVEL_NOTE = "Complete over all ordered triples of the operation table and every assignment to two serializers (quick: pairs on one and on two serializers, triples on one serializer ending in one of 21 operations or in the first again)."
RULE = "one evaluation = one history; non-trivial always"
ASSUMPTIONS = ["identifiers and the order of the document may be anything a reader treats the same, as long as they are the same every time"]


def frz(v, seen=()):
    """A structural snapshot of a value, a metadata object or a result."""
    from pypsrp.complex_objects import ComplexObject, ObjectMeta
    if id(v) in seen:
        return ("cycle", len(seen) - seen.index(id(v)))
    s = seen + (id(v),)
    if isinstance(v, ET.Element):
        return ("el", ET.tostring(v))
    if isinstance(v, queue.Queue):
        return (type(v).__name__, [frz(x, s) for x in list(v.queue)], v.unfinished_tasks, v.maxsize)
    if isinstance(v, (ComplexObject, ObjectMeta)) or type(v).__name__ == "TaggedValue":
        return (type(v).__name__, sorted((k, frz(x, s)) for k, x in v.__dict__.items() if k != "_xml"))
    if isinstance(v, dict):
        return ("d", [(frz(k, s), frz(x, s)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [frz(x, s) for x in v])
    if isinstance(v, float):
        return ("f", repr(v))
    if isinstance(v, (int, str, bytes, bool, type(None))):
        return (type(v).__name__, v)
    if isinstance(v, uuid.UUID):
        return ("uuid",)
    if getattr(v, "__dict__", None):
        return (type(v).__name__, sorted((k, frz(x, s)) for k, x in v.__dict__.items()))
    return (type(v).__name__, str(v) if type(v).__str__ is not object.__str__ else "")


def q(cls, *items):
    o = cls()
    for x in items:
        o.put(x)
    return o


_cache = {}


def cached(k, f):
    if k not in _cache:
        _cache[k] = f()
    return _cache[k]


def table(only=None):
    """name -> (operation, value, metadata): the objects live as long as the history."""
    from pypsrp import complex_objects as co, messages
    from pypsrp.host import PSHost
    from pypsrp.serializer import Serializer, TaggedValue
    T = {}

    def ser(name, v, m=None, pre=None):
        if only is None or name in only:
            T[name] = ("s", v() if callable(v) else v, m, pre)

    def des(name, doc, m=None, post=None):
        if only is None or name in only:
            T[name] = ("d", doc() if callable(doc) else doc, m, post)
    any_meta = co.ObjectMeta()
    named_any = co.ObjectMeta(name="N")
    ser("int", 1)
    ser("str any", "a", any_meta)
    ser("int any", 5, any_meta)
    ser("list any", [1, ["x"]], any_meta)
    ser("dict named", {"k": [1]}, named_any)
    ser("tagged named", TaggedValue("U64", 7), named_any)
    ser("list", [1, "a", None, [2]])
    lm = co.ListMeta(list_value_meta=co.ObjectMeta(name="inner"), list_types=["A", "System.Object"])
    ser("list meta", [1, "a"], lm)
    ser("list meta 2", ["a", 1, [True]], lm)
    dm = co.DictionaryMeta(dict_types=["A", "B"], dict_value_meta=co.ObjectMeta(name="Value"))
    ser("dict meta", {"a": 1, 2: "b", "c": {}}, dm)
    ser("tuple", (("a", 1), ("b", "c")), dm)
    ser("queue", lambda: q(queue.Queue, 1, "a", [2]))
    ser("lifo", lambda: q(queue.LifoQueue, 1, 2, 3))
    ser("prio", lambda: q(queue.PriorityQueue, 3, 1, 2), co.QueueMeta(list_types=["A", "Q"]))
    ser("stack", ["x", 1, 2], co.StackMeta())
    g = co.GenericComplexObject()
    g.types = ["A", "System.Object"]
    g.to_string = "g"
    g.extended_properties.update({"b": [1], "a": {"k": 2}, "me": g})
    g.adapted_properties["z"] = q(queue.Queue, 9)
    g.property_sets.append(1)
    ser("bag", g)
    ser("bags", [g, g, 5], any_meta)
    h = co.GenericComplexObject()
    h.types = ["A", "Other"]
    h.extended_properties["p"] = g
    ser("bag of bag", h, co.ObjectMeta("ObjDynamic", name="H", object=co.GenericComplexObject))
    el = ET.fromstring(cached("el", lambda: ET.tostring(Serializer().serialize([1, {"a": g}]))))
    ser("element", el)
    ser("element named", el, co.ObjectMeta(name="Inner"))
    ser("element in list", [el, [3], el])
    par = co.CommandParameter(name="n")

    def setp(v):
        def f():
            par.value = v
        return f
    ser("param int", par, None, setp(1))
    ser("param str", par, None, setp("a"))
    ser("param list", par, None, setp([1]))
    ser("param none", par, None, setp(None))
    cmd = co.Command(cmd="Get-X", is_script=False, use_local_scope=None, args=[par, co.CommandParameter(value=el)])
    ser("pipeline", lambda: co.Pipeline(is_nested=False, cmds=[cmd, co.Command(cmd="B", is_script=True, use_local_scope=True, end_of_statement=True), cmd], history=None, redirect_err_to_out=False), None, setp(2))
    ser("host", lambda: co.HostInfo(host=PSHost(None, None, False, None, None, None, None)))
    ser("size", co.Size(width=1, height=2))
    ser("colour", co.Color(value=co.Color.RED), any_meta)
    ser("secret", "pass", co.ObjectMeta("SS"))
    msg = lambda: messages.InitRunspacePool(1, 2, co.PSThreadOptions(value=co.PSThreadOptions.DEFAULT), co.ApartmentState(value=co.ApartmentState.UNKNOWN),
                                    co.HostInfo(host=PSHost(None, None, False, None, None, None, None)), {"a": [1, {"b": "c"}]})
    ser("init", msg)
    TN = '<TN RefId="0"><T>System.Collections.%s</T><T>System.Object</T></TN>'
    des("d list", '<Obj RefId="0">%s<LST><I32>1</I32><S>a</S><Obj RefId="1"><TNRef RefId="0" /><LST><S>b</S></LST></Obj></LST></Obj>' % (TN % "ArrayList"), any_meta, lambda v: v.append(99))
    des("d dict", '<Obj RefId="0">%s<DCT><En><S N="Key">k</S><Obj N="Value" RefId="1"><TN RefId="1"><T>A</T><T>System.Object</T></TN><MS><I32 N="p">1</I32></MS></Obj></En></DCT></Obj>' % (TN % "Hashtable"),
        any_meta, lambda v: v["k"].types.append("mutated"))
    des("d typeless", '<Obj RefId="0"><Props><S N="a">x</S></Props><MS><Obj N="b" RefId="1"><MS><S N="c">d</S></MS></Obj></MS></Obj>', any_meta, lambda v: v.extended_properties.clear())
    des("d shared types", '<Obj RefId="0">%s<LST><Obj RefId="1"><TN RefId="5"><T>A</T><T>System.Object</T></TN><MS><I32 N="p">1</I32></MS></Obj><Obj RefId="2"><TNRef RefId="5" /><MS><I32 N="p">2</I32></MS></Obj><Ref RefId="1" /></LST></Obj>' % (TN % "ArrayList"),
        None, lambda v: (v[0].types.append("mutated"), v[0].extended_properties.update(z=1)))
    des("d queue", '<Obj RefId="0">%s<QUE><I32>1</I32></QUE></Obj>' % (TN % "Queue"), None, lambda v: v.get(block=False))
    des("d stack", '<Obj RefId="0">%s<STK><I32>1</I32></STK></Obj>' % (TN % "Stack"), None, lambda v: v.pop())
    des("d array", '<Obj RefId="0"><TN RefId="0"><T>System.String[]</T><T>System.Array</T></TN><LST><S>a</S><Nil /></LST></Obj>', None, lambda v: v.pop())
    des("d error", lambda: clixml.error_record("boom", "fq"), None, lambda v: setattr(v, "message", "x"))
    des("d error meta", lambda: clixml.error_record("boom2", "fq2"), co.ObjectMeta("Obj", object=messages.ErrorRecordMessage))
    des("d info", lambda: clixml.information("hello"), co.ObjectMeta("Obj", object=messages.InformationRecord), lambda v: v.tags.append("mutated") if isinstance(v.tags, list) else None)
    des("d raw", "not xml")
    des("d unknown", '<Obj RefId="0"><TN RefId="0"><T>Strange</T></TN><LST><S>a</S></LST></Obj>', any_meta)
    des("d int", "<I32>5</I32>", any_meta)
    des("d nil", "<Nil />", named_any)
    des("d element", lambda: ET.fromstring('<Obj RefId="0">%s<LST><I32>1</I32></LST></Obj>' % (TN % "ArrayList")), None, lambda v: v.clear())
    des("d typed dict", '<Obj RefId="0"><TN RefId="0"><T>System.Collections.Generic.Dictionary`2[[System.String, x],[System.Int32, x]]</T></TN><DCT><En><S N="Key">a</S><I32 N="Value">1</I32></En></DCT></Obj>', None, lambda v: v.clear())
    des("d secret", "<SS>%s</SS>" % cached("secret", secret_b64))
    return T


def cipher():
    from cryptography.hazmat.backends import default_backend
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    return Cipher(algorithms.AES(b"k" * 32), modes.CBC(b"\0" * 16), backend=default_backend())


def secret_b64():
    import base64
    from cryptography.hazmat.primitives.padding import PKCS7
    c = cipher().encryptor()
    p = PKCS7(128).padder()
    return base64.b64encode(c.update(p.update("s3cret".encode("utf-16-le")) + p.finalize()) + c.finalize()).decode()


def apply(s, op):
    kind, v, m, extra = op
    if kind == "s":
        if extra:
            extra()
        el = s.serialize(v, m)
        return ET.tostring(el, encoding="utf-8", method="xml")
    r = s.deserialize(v, m)
    f = frz(r)
    if extra:
        extra(r)
    return f


def serializer():
    from pypsrp.serializer import Serializer
    s = Serializer()
    s.cipher = cipher()
    return s


THIRD = {"int any", "list meta 2", "dict meta", "queue", "stack", "bags", "bag of bag", "element in list", "param str", "param list", "pipeline", "secret", "init", "d list", "d shared types", "d typeless", "d error", "d info", "d array", "d typed dict", "colour"}
_alone = {}


def alone(name):
    """The operation's result and the snapshot of what it was given, from a process that does nothing else."""
    if name not in _alone:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                op = table()[name]
                snap = given(op)
                try:
                    out = ("ok", apply(serializer(), op), snap)
                except Exception as e:
                    out = ("raised", "%s: %s" % (type(e).__name__, e), snap)
                with os.fdopen(w, "wb") as fd:
                    pickle.dump(out, fd)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as fd:
            data = fd.read()
        os.waitpid(pid, 0)
        if not data:
            raise core.HarnessError("no result for %s" % name)
        _alone[name] = pickle.loads(data)
        if _alone[name][0] != "ok":
            raise core.Violation("%s: %s" % (name, _alone[name][1]), "operation fails on its own")
    return _alone[name]


def given(op):
    if op[0] == "s" and op[3]:
        op[3]()
    return frz(op[1]), frz(op[2])


def history(names, places):
    T = table(names)
    ss = [serializer(), serializer()]
    for i, (n, p) in enumerate(zip(names, places)):
        want = alone(n)
        got = apply(ss[p], T[n])
        if got == want[1]:
            continue
        when = "first" if i == 0 else "after " + ", ".join(names[:i])
        need(got == want[1], "%s gives another result %s: %s, alone %s" % (n, when, core.short(got), core.short(want[1])), "result depends on what was done before")
    for n in names:
        if given(T[n]) == alone(n)[2]:
            continue
        need(False, "%s was changed by %s: now %s, before %s" % (n, ", ".join(names), core.short(given(T[n])), core.short(alone(n)[2])), "value or metadata of the caller changed")
    return (names, places), True


def cases(tier):
    return [["ops", n] for n in sorted(table_names())]


def table_names():
    return list(table())


def run_case(case, rep):
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    first = case[1]
    names = sorted(table_names())
    for n in names:
        try:
            alone(n)
        except core.Violation:
            rep.execute(lambda: (alone(n), (n, True))[1], case=case, choices=lambda: [n])
            return
    for b in names:
        for pl in ((0, 0), (0, 1)):
            rep.execute(lambda: history([first, b], pl), case=case, choices=lambda: [b, pl])
    for b in names:
        for c in (names if thorough else [x for x in names if x in THIRD or x == first]):
            for pl in (((0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1)) if thorough else ((0, 0, 0),)):
                rep.execute(lambda: history([first, b, c], pl), case=case, choices=lambda: [b, c, pl])
