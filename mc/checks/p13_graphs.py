"""P13: containers and object graphs are rebuilt with the same shape, order, types and sharing."""
import itertools
import os
import queue
import xml.etree.ElementTree as ET

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P13"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all container/object trees to a depth and width bound and of all reference graphs over three nodes, in both directions, through the real serializer against an independent strict reader and writer of the protocol's object encoding"
LEVEL_NOTE = "Complete over the stated tree and graph spaces; leaves are drawn from two values because P12 decides the primitives; a few documents of up to 1030 objects and as many type lists."
RULE = "one evaluation = one tree or graph in one direction; non-trivial when it has at least one container or object"
ASSUMPTIONS = ["a Stack is written top first, as PowerShell does, and read as the list of its entries in the order written", "values a reader can identify: objects typed as one of the containers the library documents, and property bags"]

LST = ("System.Object[]", "System.Array", "System.Object")
DCT = ("System.Collections.Hashtable", "System.Object")
QUE = ("System.Collections.Queue", "System.Object")
STK = ("System.Collections.Stack", "System.Object")
TYPES = {0: None, 1: ("A", "System.Object"), 2: ("A", "B", "System.Object"), 3: ("B", "System.Object")}
LEAVES = [1, "a"]
CONT = ["L", "D", "Q", "K", "E"]
OBJ = [("O", 0, "m"), ("O", 1, "m"), ("O", 2, "p"), ("O", 3, "b")]
KINDS = [(c,) for c in CONT] + OBJ


def head(k):
    return 3 if k[0] == "O" else 1


def kids(t):
    return t[head(t):]


def level(below, width, kinds=KINDS):
    """All containers over the given children."""
    for k in kinds:
        for n in range(width + 1):
            for c in itertools.product(below, repeat=n):
                yield k + c


def build(t, tagged):
    """The Python value a caller passes for this tree."""
    from pypsrp.complex_objects import GenericComplexObject
    if not isinstance(t, tuple):
        return t
    c = [build(x, tagged) for x in kids(t)]
    if t[0] == "L":
        return c
    if t[0] == "E":
        return tagged("IE", c)
    if t[0] == "K":
        return tagged("STK", c)
    if t[0] == "D":
        return {"k%d" % i: x for i, x in enumerate(c)}
    if t[0] == "Q":
        q = queue.Queue()
        for x in c:
            q.put(x)
        return q
    o = GenericComplexObject()
    o.types = list(TYPES[t[1]] or ())
    if t[2] == "b":
        o.to_string = "str"
    for i, x in enumerate(c):
        (o.adapted_properties if t[2] == "p" or t[2] == "b" and i % 2 else o.extended_properties)["p%d" % i] = x
    return o


def check_node(t, n, path="top"):
    """The strictly decoded node must be this tree."""
    if not isinstance(t, tuple):
        need(n == (("S", t) if isinstance(t, str) else ("I32", t)), "%s arrives as %r, expected %r" % (path, n, t), "leaf of a container")
        return
    need(isinstance(n, clixml.Node), "%s arrives as %r" % (path, n), "container does not arrive as one")
    c = kids(t)
    if t[0] in CONT:
        tag, types = {"L": ("LST", LST), "E": ("IE", LST), "D": ("DCT", DCT), "Q": ("QUE", QUE), "K": ("STK", STK)}[t[0]]
        same(n.types, types, "types of %s" % path, "type list of a container")
        need(n.cont and n.cont[0] == tag and n.value is None and not n.props and not n.ms, "%s is %r" % (path, n), "container does not arrive as one")
        got = n.cont[1]
        same(len(got), len(c), "entries of %s" % path, "number of entries")
        if t[0] == "K":
            c = c[::-1]
        for i, x in enumerate(c):
            if t[0] == "D":
                same(got[i][0], ("S", "k%d" % i), "key of %s" % path, "order of keys")
                check_node(x, got[i][1], path + "." + str(i))
            else:
                check_node(x, got[i], path + "." + str(i))
        return
    same(n.types, TYPES[t[1]], "types of %s" % path, "type list of an object")
    same(n.tostring, "str" if t[2] == "b" else None, "string form of %s" % path)
    for i, x in enumerate(c):
        d = n.props if t[2] == "p" or t[2] == "b" and i % 2 else n.ms
        need(d and "p%d" % i in d, "property %d of %s is missing" % (i, path), "property missing")
        check_node(x, d["p%d" % i], path + "." + str(i))
    same(len(n.props or ()) + len(n.ms or ()), len(c), "properties of %s" % path)


def check_value(t, v, path="top", sent=True):
    """The deserialized Python value must be this tree."""
    from pypsrp.complex_objects import GenericComplexObject
    if not isinstance(t, tuple):
        need(type(v) is type(t) and v == t, "%s reads as %r, expected %r" % (path, v, t), "leaf of a container read back")
        return
    c = kids(t)
    if t[0] in "LEKAGCY":
        need(type(v) is list, "%s (%s) reads as %r" % (path, t[0], v), "list or stack does not read back as one")
        got = v
        if t[0] == "K" and sent:
            c = c[::-1]
    elif t[0] == "D":
        need(type(v) is dict, "%s reads as %r" % (path, v), "dictionary does not read back as one")
        same(list(v), ["k%d" % i for i in range(len(c))], "keys of %s" % path, "order of keys read back")
        got = list(v.values())
    elif t[0] == "Q":
        need(isinstance(v, queue.Queue), "%s reads as %r" % (path, v), "queue does not read back as one")
        got = list(v.queue)
    else:
        need(type(v) is GenericComplexObject, "%s reads as %r" % (path, v), "object does not read back as one")
        same(tuple(v.types), TYPES[t[1]] or (), "types of %s" % path, "type list read back")
        same(v.to_string, "str" if t[2] == "b" else None, "string form of %s" % path)
        ad = {"p%d" % i for i in range(len(c)) if t[2] == "p" or t[2] == "b" and i % 2}
        same((set(v.adapted_properties), set(v.extended_properties)), (ad, {"p%d" % i for i in range(len(c))} - ad), "properties of %s" % path, "properties read back")
        got = [v.adapted_properties.get("p%d" % i, v.extended_properties.get("p%d" % i)) for i in range(len(c))]
        same(v.property_sets, [], "values of %s" % path)
    same(len(got), len(c), "entries of %s" % path, "number of entries read back")
    for i, x in enumerate(c):
        check_value(x, got[i], path + "." + str(i), sent)


def enc(el):
    return ET.tostring(el, encoding="utf-8", method="xml").decode()


def strict(xml):
    try:
        return clixml.decode(xml)
    except clixml.Bad as e:
        raise core.Violation("a conforming reader refuses the document: %s; %s" % (e, core.short(xml)), "document a conforming reader refuses")


def tree(s, r, t, tagged):
    x = enc(s.serialize(build(t, tagged)))
    check_node(t, strict(x))
    check_value(t, r.deserialize(x))
    return t, isinstance(t, tuple)


# ---------------------------------------------------------------- documents from the server

SRV = {"A": ("System.Object[]", "System.Array", "System.Object"), "L": ("System.Collections.ArrayList", "System.Object"),
       "G": ("System.Collections.Generic.List`1[[System.Object, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]", "System.Object"),
       "C": ("System.Collections.ObjectModel.Collection`1[[System.Management.Automation.PSObject, System.Management.Automation, Version=3.0.0.0, Culture=neutral, PublicKeyToken=31bf3856ad364e35]]", "System.Object"),
       "Y": ("Deserialized.System.Collections.ArrayList", "Deserialized.System.Object"),
       "D": DCT, "Q": QUE, "K": STK}
STAG = {"A": "LST", "L": "LST", "G": "LST", "C": "LST", "Y": "IE", "Q": "QUE", "K": "STK"}
SKINDS = [("A",), ("L",), ("G",), ("C",), ("Y",), ("D",), ("Q",), ("K",)] + OBJ


class Emit:
    """What a conforming server writes: each object once, then by reference; each type list once, then by reference."""

    def __init__(self, base=0):
        self.id = base
        self.tn = {}
        self.seen = {}

    def types(self, types):
        if types is None:
            return ""
        if types in self.tn:
            return '<TNRef RefId="%d" />' % self.tn[types]
        self.tn[types] = len(self.tn)
        return '<TN RefId="%d">%s</TN>' % (self.tn[types], "".join("<T>%s</T>" % clixml.xml(x) for x in types))

    def leaf(self, v, name):
        n = ' N="%s"' % name if name else ""
        return "<I32%s>%d</I32>" % (n, v) if isinstance(v, int) else "<S%s>%s</S>" % (n, v)

    def emit(self, t, name=None, node=None, of=None):
        """t: tree; or, with `of`, a node name resolved in the graph `of`."""
        n = ' N="%s"' % name if name else ""
        if of is not None and isinstance(t, str) and t in of:
            if t in self.seen:
                return '<Ref%s RefId="%d" />' % (n, self.seen[t])
            node, t = t, of[t]
        if not isinstance(t, tuple):
            return self.leaf(t, name)
        rid = self.id
        self.id += 1
        if node is not None:
            self.seen[node] = rid
        c = kids(t)
        if t[0] == "O":
            inner = self.types(TYPES[t[1]])
            if t[2] == "b":
                inner += "<ToString>str</ToString>"
            ps = {"Props": "", "MS": ""}
            slots = [("Props" if t[2] == "p" or t[2] == "b" and i % 2 else "MS", i, x) for i, x in enumerate(c)]
            for k in ("Props", "MS"):
                for kk, i, x in slots:
                    if kk == k:
                        ps[k] += self.emit(x, "p%d" % i, of=of)
            inner += "".join("<%s>%s</%s>" % (k, v, k) for k, v in ps.items() if v)
        elif t[0] == "D":
            inner = self.types(SRV["D"]) + "<DCT>%s</DCT>" % "".join(
                '<En><S N="Key">k%d</S>%s</En>' % (i, self.emit(x, "Value", of=of)) for i, x in enumerate(c))
        else:
            inner = self.types(SRV[t[0]]) + "<%s>%s</%s>" % (STAG[t[0]], "".join(self.emit(x, of=of) for x in c), STAG[t[0]])
        return '<Obj%s RefId="%d">%s</Obj>' % (n, rid, inner)


def recv(r, t):
    x = Emit().emit(t)
    check_value(t, r.deserialize(x), sent=False)
    return t, isinstance(t, tuple)


# ---------------------------------------------------------------- reference graphs

def children(v):
    """(label, child) pairs of a received value."""
    from pypsrp.complex_objects import GenericComplexObject
    if isinstance(v, list):
        return list(enumerate(v))
    if isinstance(v, dict):
        return [(i, x) for i, x in enumerate(v.values())]
    if isinstance(v, queue.Queue):
        return list(enumerate(list(v.queue)))
    if isinstance(v, GenericComplexObject):
        m = dict(v.adapted_properties)
        m.update(v.extended_properties)
        return [(int(k[1:]), x) for k, x in sorted(m.items())]
    return []


def check_graph(of, v):
    """The received value graph is the specification graph, with one Python object per node."""
    ident = {}
    todo = [("n0", v)]
    while todo:
        name, v = todo.pop()
        if name in ident:
            need(ident[name] is v, "node %s is received as two objects" % name, "shared object comes back as separate objects")
            continue
        need(all(o is not v for o in ident.values()), "node %s and another are received as one object" % name, "two objects come back as one")
        ident[name] = v
        t = of[name]
        shallow = t[:head(t)] + tuple(0 for _ in kids(t))
        kind = {"D": dict, "Q": queue.Queue}.get(t[0], list)
        if t[0] == "O":
            from pypsrp.complex_objects import GenericComplexObject as kind
        need(isinstance(v, kind), "node %s (%s) reads as %r" % (name, t[0], type(v)), "object of a graph has the wrong kind")
        if t[0] == "O":
            same(tuple(v.types), TYPES[t[1]] or (), "types of %s" % name, "type list read back")
        ch = children(v)
        same(len(ch), len(kids(t)), "children of %s" % name, "number of entries read back")
        for (i, x), k in zip(ch, kids(t)):
            if isinstance(k, str) and k in of:
                todo.append((k, x))
            else:
                need(type(x) is type(k) and x == k, "child %s of %s reads as %r" % (i, name, x), "leaf of a graph")


def graph_recv(r, of):
    check_graph(of, r.deserialize(Emit().emit("n0", of=of)))
    return sorted(of.items()), True


def graph_send(s, of, kinds):
    """Property bags referring to each other, through properties or through a list."""
    from pypsrp.complex_objects import GenericComplexObject
    objs = {n: GenericComplexObject() for n in of}
    for n, t in of.items():
        objs[n].types = list(TYPES[t[1]] or ())
        for i, k in enumerate(kids(t)):
            x = objs.get(k, k)
            if kinds == "list" and i == 0:
                x = [x, x]
            elif kinds == "dict" and i == 0:
                x = {"k0": x, "k1": x}
            (objs[n].adapted_properties if t[2] == "p" else objs[n].extended_properties)["p%d" % i] = x
    x = enc(s.serialize(objs["n0"]))
    d = clixml.Decoder()
    try:
        root = d.decode(x)
    except clixml.Bad as e:
        raise core.Violation("a conforming reader refuses the document: %s; %s" % (e, core.short(x)), "document a conforming reader refuses")

    def res(v):
        return d.objs[v[1]] if isinstance(v, tuple) and v[0] == "Cycle" else v
    done = set()
    todo = [("n0", root)]
    while todo:
        name, v = todo.pop()
        v = res(v)
        if (name, id(v)) in done:
            continue
        done.add((name, id(v)))
        t = of[name]
        need(isinstance(v, clixml.Node), "node %s arrives as %r" % (name, type(v)), "object of a graph has the wrong kind")
        same(v.types, TYPES[t[1]], "types of %s" % name, "type list of an object in a graph")
        props = (v.props if t[2] == "p" else v.ms) or {}
        same(len(props), len(kids(t)), "properties of %s" % name)
        for i, k in enumerate(kids(t)):
            y = res(props["p%d" % i])
            if kinds == "list" and i == 0:
                need(isinstance(y, clixml.Node) and y.cont and y.cont[0] == "LST" and len(y.cont[1]) == 2, "list of %s arrives as %r" % (name, type(y)), "container in a graph")
                ys = y.cont[1]
            elif kinds == "dict" and i == 0:
                need(isinstance(y, clixml.Node) and y.cont and y.cont[0] == "DCT" and len(y.cont[1]) == 2, "dictionary of %s arrives as %r" % (name, type(y)), "container in a graph")
                ys = [b for _, b in y.cont[1]]
            else:
                ys = [y]
            for y in ys:
                if k in of:
                    todo.append((k, y))
                else:
                    same(y, ("I32", k), "leaf of %s" % name)
    return sorted(of.items()), True


def graphs(kinds, slots=2, nodes=3):
    names = ["n%d" % i for i in range(nodes)]
    for ks in itertools.product(kinds, repeat=nodes):
        for ch in itertools.product(itertools.product([7] + names, repeat=slots), repeat=nodes):
            yield {n: k + c for n, k, c in zip(names, ks, ch)}


# ---------------------------------------------------------------- chosen type lists, wrappers the library knows

CUSTOM = [("X", "System.Object"), ("X",), ("X", "Y", "System.Object"), ("Y", "X"), ("System.Collections.ArrayList", "System.Object")]


def custom(s, ts, kinds):
    from pypsrp.complex_objects import DictionaryMeta, GenericComplexObject, ListMeta, QueueMeta, StackMeta

    def make(kind, types):
        if kind == "D":
            return {"a": 1}, DictionaryMeta(dict_types=list(types))
        if kind == "Q":
            q = queue.Queue()
            q.put(1)
            return q, QueueMeta(list_types=list(types))
        if kind == "K":
            return [1], StackMeta(list_types=list(types))
        if kind == "O":
            o = GenericComplexObject()
            o.types = list(types)
            return o, None
        return [1], ListMeta({"L": "LST", "E": "IE"}[kind], list_types=list(types))
    from pypsrp.complex_objects import ComplexObject, ObjectMeta
    root = ComplexObject()
    root._types = list(ts[0])
    props = []
    for i, (t, k) in enumerate(zip(ts, kinds)):
        v, m = make(k, t)
        m = m or ObjectMeta()
        m.name = "v%d" % i
        setattr(root, "v%d" % i, v)
        props.append(("v%d" % i, m))
    root._extended_properties = tuple(props)
    d = strict(enc(s.serialize(root)))
    same(d.types, ts[0], "types of the root", "type list of an object")
    for i, (t, k) in enumerate(zip(ts, kinds)):
        same(d.ms["v%d" % i].types, t, "types of member %d" % i, "chosen type list of a container")
    return (ts, kinds), True


def typed_list(r, prim, n, nest):
    """An array whose element type is declared (or guessed) keeps elements of any type."""
    elems = {"int": "<I32>1</I32>", "str": "<S>a</S>", "nil": "<Nil />", "list": None, "dict": None, "bag": None}
    em = Emit(base=1)
    em.tn[("T",)] = 0
    out, want = "", []
    for k in nest:
        if k in ("int", "str", "nil"):
            out += elems[k]
            want.append({"int": 1, "str": "a", "nil": None}[k])
        else:
            t = {"list": ("L", 1), "dict": ("D", 1), "bag": ("O", 1, "m", 1), "plain": ("O", 0, "m", 1), "queue": ("Q", 1)}[k]
            out += em.emit(t)
            want.append(t)
    x = '<Obj RefId="0"><TN RefId="0"><T>%s</T><T>System.Array</T><T>System.Object</T></TN><LST>%s</LST></Obj>' % (clixml.xml(prim), out)
    em.tn = {}
    v = r.deserialize(x)
    need(type(v) is list and len(v) == len(want), "array reads as %r" % (v,), "array does not read back as a list")
    for g, w in zip(v, want):
        if w is None:
            need(g is None, "null element reads as %r" % (g,), "null element")
        else:
            check_value(w, g, sent=False)
    return (prim, nest), True


ARRAYS = ["System.Object[]", "System.String[]", "System.Int32[]", "System.Collections.Hashtable[]", "Deserialized.System.Object[]", "System.Collections.ArrayList", "Some.Type[]",
          "System.Collections.Generic.List`1[[System.String, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]",
          "System.Management.Automation.PSObject[]"]

FITS = {None: ["int", "str", "nil", "list", "dict", "bag", "plain", "queue"], "System.String[]": ["str", "nil"], "System.Int32[]": ["int"], "System.Collections.Hashtable[]": ["dict", "nil"]}
FITS[ARRAYS[7]] = FITS["System.String[]"]

# places where an object or type list is written first but which the reader has no slot for, or reads through a fixed layout
HOSTS = {
    "error extra": '<Obj RefId="100"><TN RefId="100"><T>System.Management.Automation.ErrorRecord</T><T>System.Object</T></TN><ToString>m</ToString><MS>'
                   '<Obj N="Exception" RefId="101"><TN RefId="101"><T>System.Exception</T><T>System.Object</T></TN><Props><S N="Message">m</S></Props></Obj>'
                   '%(first)s%(second)s'
                   '<Nil N="InvocationInfo" /><S N="FullyQualifiedErrorId">f</S><I32 N="ErrorCategory_Category">0</I32><S N="ErrorCategory_Activity">a</S><S N="ErrorCategory_Reason">r</S>'
                   '<S N="ErrorCategory_TargetName">t</S><S N="ErrorCategory_TargetType">y</S><S N="ErrorCategory_Message">c</S><B N="SerializeExtendedInfo">false</B></MS></Obj>',
    "warning": '<Obj RefId="100"><TN RefId="100"><T>System.Management.Automation.InformationRecord</T><T>System.Object</T></TN><ToString>m</ToString><Props>'
               '%(first)s<S N="Source">s</S><DT N="TimeGenerated">2018-01-01T00:00:00.0000000+00:00</DT>'
               '<Obj N="Tags" RefId="102"><TN RefId="102"><T>System.Collections.Generic.List`1[[System.String, mscorlib]]</T><T>System.Object</T></TN><LST /></Obj>'
               '<S N="User">u</S><S N="Computer">c</S><U32 N="ProcessId">1</U32><U32 N="NativeThreadId">1</U32><U32 N="ManagedThreadId">1</U32>%(other)s</Props></Obj>',
}


def skipped(r, where, t, how):
    """An object first seen in a part the library does not model is still found by a later reference."""
    em = Emit(base=200)
    em.tn = {("pad", str(i)): i for i in range(110)}
    if how == "ref":
        full = em.emit(t)
        rid = 200
        later = '<Ref RefId="%d" />' % rid
    else:
        full = em.emit(t)
        later = em.emit(t)
    if where == "unknown":
        full = full.replace("<Obj ", '<Obj N="Whatever" ', 1)
        inner = '<Obj RefId="100"><TN RefId="120"><T>System.Management.Automation.Host.Size</T><T>System.Object</T></TN><Props><I32 N="Width">1</I32><I32 N="Height">2</I32>%s</Props></Obj>' % full
    elif where == "raw":
        inner = '<Obj RefId="100"><TN RefId="120"><T>Strange</T></TN><LST>%s</LST></Obj>' % full
    elif where == "bag-list":
        inner = '<Obj RefId="100"><TN RefId="120"><T>Strange</T><T>System.Object</T></TN><LST>%s</LST></Obj>' % full
    elif where == "boxed":
        inner = '<Obj RefId="100"><I32>5</I32><MS>%s</MS></Obj>' % full.replace("<Obj ", '<Obj N="Note" ', 1)
    doc = '<Obj RefId="99"><TN RefId="119"><T>System.Collections.ArrayList</T><T>System.Object</T></TN><LST>%s%s</LST></Obj>' % (inner, later)
    v = r.deserialize(doc)
    need(type(v) is list and len(v) == 2, "reads as %r" % (v,), "list with a partly unknown entry")
    check_value(t, v[1], sent=False)
    return (where, t, how), True


def slots(r, where, share):
    """Fixed layouts read a reference in any slot an object may take."""
    if where == "error":
        bag = '<Obj N="%s" RefId="201"><MS><I32 N="p0">1</I32></MS></Obj>'
        ref = '<Ref N="%s" RefId="201" />'
        d = {"first": bag % "TargetObject", "second": ""}
        x = HOSTS["error extra"] % d
        doc = '<Obj RefId="300"><TN RefId="300"><T>System.Collections.ArrayList</T></TN><LST>%s</LST></Obj>'
        if share == "slot":
            body = '<Obj RefId="201"><MS><I32 N="p0">1</I32></MS></Obj>' + HOSTS["error extra"] % {"first": ref % "TargetObject", "second": ""}
            v = r.deserialize(doc % body)
            need(v[1].target_object is v[0], "target object %r" % (v[1].target_object,), "shared object in a fixed slot")
        elif share == "exception":
            exc = '<Obj RefId="101"><TN RefId="101"><T>System.Exception</T><T>System.Object</T></TN><Props><S N="Message">m</S></Props></Obj>'
            x = HOSTS["error extra"] % {"first": '<Nil N="TargetObject" />', "second": ""}
            s0 = x.index('<Obj N="Exception"')
            e0 = x.index("</Obj>", s0) + 6
            v = r.deserialize(doc % (exc + x[:s0] + '<Ref N="Exception" RefId="101" />' + x[e0:]))
            need(v[1].exception is v[0], "exception %r" % (v[1].exception,), "shared object in a fixed slot")
        else:
            v = r.deserialize(doc % (x + '<Ref RefId="201" />'))
            need(v[1] is v[0].target_object, "later %r" % (v[1],), "object first seen in a fixed slot")
    elif where == "size":
        # a fixed-layout object shared by two places
        x = '<Obj%s RefId="5"><TN RefId="0"><T>System.Management.Automation.Host.Size</T><T>System.Object</T></TN><Props><I32 N="Width">1</I32><I32 N="Height">2</I32></Props></Obj>'
        doc = '<Obj RefId="1"><TN RefId="8"><T>System.Collections.ArrayList</T></TN><LST>%s<Ref RefId="5" /></LST></Obj>' % (x % "")
        v = r.deserialize(doc)
        need(v[0] is v[1] and (v[0].width, v[0].height) == (1, 2), "%r" % (v,), "shared fixed-layout object")
    elif where == "mandatory":
        # an object in a typed slot (category of a host call identifier, enum) given by reference
        enum = '<Obj%s RefId="7"><TN RefId="1"><T>System.Management.Automation.CommandOrigin</T><T>System.Enum</T></TN><ToString>Runspace</ToString><I32>0</I32></Obj>'
        doc = '<Obj RefId="1"><TN RefId="8"><T>System.Collections.ArrayList</T></TN><LST>%s%s</LST></Obj>' % (enum % "", '<Ref RefId="7" />')
        v = r.deserialize(doc)
        need(v[0] is v[1] and v[0].value == 0, "%r" % (v,), "shared enumeration value")
    return (where, share), True


# ---------------------------------------------------------------- values serialized beforehand

def pre(s, make, pos, tagged):
    """A value serialized beforehand is embedded: the document stays well formed and the value is the same."""
    from pypsrp.complex_objects import CommandParameter, GenericComplexObject
    a = s.serialize(build(make[0], tagged))
    b = s.serialize(build(make[1], tagged)) if make[1] != "same" else a
    t = (make[0], make[1] if make[1] != "same" else make[0])
    if pos == "list":
        d = strict(enc(s.serialize([a, b, [3]])))
        check_node(t[0], d.cont[1][0])
        check_node(t[1], d.cont[1][1])
        check_node(("L", 3), d.cont[1][2])
    elif pos == "dict":
        d = strict(enc(s.serialize({"x": [3], "y": a, "z": b})))
        check_node(("L", 3), d.cont[1][0][1])
        check_node(t[0], d.cont[1][1][1])
        check_node(t[1], d.cont[1][2][1])
    elif pos == "bag":
        o = GenericComplexObject()
        o.types = ["A", "System.Object"]
        o.extended_properties["x"] = a
        o.adapted_properties["y"] = b
        o.extended_properties["z"] = o
        d = strict(enc(s.serialize(o)))
        check_node(t[0], d.ms["x"])
        check_node(t[1], d.props["y"])
        same(d.types, ("A", "System.Object"), "types")
    elif pos == "param":
        d = strict(enc(s.serialize([CommandParameter(name="n", value=a), CommandParameter(name="m", value=b)])))
        check_node(t[0], d.cont[1][0].ms["V"])
        check_node(t[1], d.cont[1][1].ms["V"])
    elif pos == "twice":
        x, y = enc(s.serialize([a])), enc(s.serialize([a]))
        same(x, y, "second document with the same value")
        check_node(t[0], strict(enc(s.serialize(a))))
        check_node(t[0], strict(enc(a)))
    return (make, pos), True


def session(kind):
    """Through a session: arguments, parameters and input of nested shapes, some serialized beforehand."""
    from pypsrp.powershell import PowerShell
    from pypsrp.serializer import TaggedValue
    shapes = [k + (1, "a") for k in KINDS] + [("L", k + (("D", 1),)) for k in KINDS] + [("L",), ("L", ("L", ("L",))), ("D", ("O", 1, "m", ("O", 2, "m")))]
    s = server.FullServer()
    outs = [k + (1, "a") for k in SKINDS] + [k + (j + (1,), 2) for k in SKINDS for j in SKINDS]
    s.script = [(wire.OUTPUT, Emit().emit(t)) for t in outs] + [(wire.PIPE_STATE, clixml.pipeline_state(4))]
    s.install(horizon=5000)
    p = drive.pool()
    p.open()
    ps = PowerShell(p)
    ps.add_cmdlet("C")

    def val(t):
        v = build(t, TaggedValue)
        return p.serialize(v) if kind == "pre" else v
    for i, t in enumerate(shapes):
        ps.add_argument(val(t))
        ps.add_parameter("P%d" % i, val(t))
    out = ps.invoke([val(t) for t in shapes])
    same(s.errors, [], "server errors")
    pipe = list(list(s.shells.values())[0].pipes.values())[0]
    args = pipe.created.ms["PowerShell"].ms["Cmds"].cont[1][0].ms["Args"].cont[1]
    same(len(args), 2 * len(shapes), "arguments")
    for i, t in enumerate(shapes):
        check_node(t, args[2 * i].ms["V"])
        check_node(t, args[2 * i + 1].ms["V"])
    same(len(pipe.inputs), len(shapes), "input objects")
    for b, t in zip(pipe.inputs, shapes):
        check_node(t, strict(b))
    same(len(out), len(outs), "output objects")
    for v, t in zip(out, outs):
        check_value(t, v, sent=False)
    return (kind, len(shapes)), True


# ---------------------------------------------------------------- objects of a known type with parts missing

KNOWN = {
    "Coordinates": ("System.Management.Automation.Host.Coordinates", [("X", "x", "<I32%s>4</I32>", 4), ("Y", "y", "<I32%s>-7</I32>", -7)]),
    "Size": ("System.Management.Automation.Host.Size", [("Width", "width", "<I32%s>4</I32>", 4), ("Height", "height", "<I32%s>9</I32>", 9)]),
    "KeyInfo": ("System.Management.Automation.Host.KeyInfo", [("VirtualKeyCode", "code", "<I32%s>65</I32>", 65), ("Character", "character", "<C%s>97</C>", "a"), ("ControlKeyState", "state", "<S%s>NumLockOn</S>", "NumLockOn"), ("KeyDown", "key_down", "<B%s>true</B>", True)]),
    "CultureInfo": ("System.Globalization.CultureInfo", [("LCID", "lcid", "<I32%s>1033</I32>", 1033), ("Name", "name", "<S%s>en-US</S>", "en-US"), ("DisplayName", "display_name", "<S%s>English</S>", "English"), ("IetfLanguageTag", "ietf_language_tag", "<S%s>en-US</S>", "en-US"),
                                                        ("ThreeLetterISOLanguageName", "three_letter_iso_name", "<S%s>eng</S>", "eng"), ("ThreeLetterWindowsLanguageName", "three_letter_windows_name", "<S%s>ENU</S>", "ENU"), ("TwoLetterISOLanguageName", "two_letter_iso_language_name", "<S%s>en</S>", "en")]),
}


def known(name, there, nil, where, prefix):
    """A value of a type the library knows, with any of its members absent or null: it reads as the type or as a property bag, nothing it holds is lost, and what surrounds it is unharmed."""
    import warnings
    from pypsrp.complex_objects import GenericComplexObject
    t, fields = KNOWN[name]
    props = "".join(('<Nil N="%s" />' % n if i in nil else x % (' N="%s"' % n)) for i, (n, _, x, _) in enumerate(fields) if i in there)
    body = lambda n: '<Obj%s RefId="5"><TN RefId="0"><T>%s%s</T><T>System.Object</T></TN><ToString>as text</ToString><Props>%s</Props></Obj>' % (n, prefix, t, props)
    lst = '<TN RefId="9"><T>System.Object[]</T><T>System.Array</T><T>System.Object</T></TN>'
    doc = {"top": body(""), "list": '<Obj RefId="0">%s<LST><I32>1</I32>%s<S>z</S></LST></Obj>' % (lst, body("")),
           "shared": '<Obj RefId="0">%s<LST>%s<Ref RefId="5" /><S>z</S></LST></Obj>' % (lst, body("")),
           "bag": '<Obj RefId="0"><MS><I32 N="a">1</I32>%s<S N="c">z</S></MS></Obj>' % body(' N="b"'),
           "dict": '<Obj RefId="0"><TN RefId="9"><T>System.Collections.Hashtable</T><T>System.Object</T></TN><DCT><En><S N="Key">k</S>%s</En><En><S N="Key">l</S><S N="Value">z</S></En></DCT></Obj>' % body(' N="Value"')}[where]
    s = server.FullServer()
    s.script = [(wire.OUTPUT, "<S>before</S>"), (wire.OUTPUT, doc), (wire.OUTPUT, "<S>after</S>"), (wire.PIPE_STATE, clixml.pipeline_state(4))]
    s.install(horizon=200)
    from pypsrp.powershell import PowerShell
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = drive.pool()
        p.open()
        ps = PowerShell(p)
        ps.add_cmdlet("C")
        out = ps.invoke()
        p.close()
    same(len(out), 3, "outputs", "output lost")
    same((out[0], out[2]), ("before", "after"), "outputs around it", "neighbours of an incomplete object")
    v = out[1]
    if where == "list":
        same((v[0], v[2], len(v)), (1, "z", 3), "rest of the list", "neighbours of an incomplete object")
        v = v[1]
    elif where == "shared":
        need(v[0] is v[1] and v[2] == "z", "the shared object reads as %r" % (v,), "shared object comes back as separate objects")
        v = v[0]
    elif where == "bag":
        same((v.extended_properties["a"], v.extended_properties["c"]), (1, "z"), "rest of the object", "neighbours of an incomplete object")
        v = v.extended_properties["b"]
    elif where == "dict":
        same((v["l"], len(v)), ("z", 2), "rest of the dictionary", "neighbours of an incomplete object")
        v = v["k"]
    same(str(v), "as text", "text form", "text form of an object")
    for i, (n, attr, _, val) in enumerate(fields):
        want = None if i in nil else val
        if isinstance(v, GenericComplexObject):
            need((n in v.adapted_properties) == (i in there), "member %s is %s" % (n, v.adapted_properties.get(n, "absent")), "member of an incomplete object")
            if i in there:
                same(v.adapted_properties[n], want, "member %s" % n, "member of an incomplete object")
        else:
            same(getattr(v, attr), want if i in there else None, "member %s" % n, "member of an incomplete object")
    if len(there) == len(fields):
        need(not isinstance(v, GenericComplexObject), "a complete object reads as a property bag", "known type not recognised")
    return (name, there, nil, where), True


# ---------------------------------------------------------------- arrays of several dimensions

MARRAY = {"int": lambda i: i, "str": lambda i: "e%d" % i, "nil": lambda i: None if i % 2 else i, "dict": lambda i: {"k0": i},
          "cell": None, "same": None}


def shapes(dims, top):
    """Every shape a list of lists can express: a dimension after one of length zero has no length."""
    for n in range(1, dims + 1):
        for sh in itertools.product(range(top + 1), repeat=n):
            if 0 not in sh[:-1]:
                yield sh


def nest(sh, it):
    return [nest(sh[1:], it) if len(sh) > 1 else next(it) for _ in range(sh[0])]


def marray(s, r, sh, elem, order):
    """An array of any shape is sent as its entries, deepest first, and its lengths; what arrives is the same array, however it is read."""
    from pypsrp.complex_objects import Array, BufferCell, BufferCellType, Color, ObjectMeta
    n = 1
    for x in sh:
        n *= x
    if elem in ("cell", "same"):
        vals = [BufferCell(character=chr(97 + i) if elem == "cell" else "c", foreground_color=Color(value=i % 16), background_color=Color(value=1), cell_type=BufferCellType.COMPLETE) for i in range(n if elem == "cell" else 1)]
        if elem == "same":
            vals = vals * n
    else:
        vals = [MARRAY[elem](i) for i in range(n)]
    value = nest(sh, iter(vals))
    x = enc(s.serialize(Array(array=value)))
    need(value == nest(sh, iter(vals)), "sending the array changed it to %r" % (value,), "array changed by sending")
    d = clixml.Decoder()
    try:
        top = d.decode(x)
    except clixml.Bad as e:
        raise core.Violation("a conforming reader refuses the document: %s; %s" % (e, core.short(x)), "document a conforming reader refuses")
    mae, mal = top.ms["mae"], top.ms["mal"]
    same([b for a, b in mal.cont[1] if a == "I32"], list(sh), "lengths", "lengths of an array")
    got = mae.cont[1]
    same(len(got), n, "entries", "number of entries of an array")
    for i, g in enumerate(got):
        if elem in ("cell", "same"):
            same((g.props["character"], g.props["foregroundColor"].value, g.props["bufferCellType"]),
                 (("C", 97 + i if elem == "cell" else 99), ("I32", i % 16 if elem == "cell" else 0), ("I32", 0)), "entry %d" % i, "entry of an array") if isinstance(g, clixml.Node) else need(False, "entry %d is %r" % (i, g), "entry of an array")
        elif elem == "dict":
            check_node(("D", i), g)
        else:
            same(g, ("Nil",) if vals[i] is None else ("S" if elem == "str" else "I32", vals[i]), "entry %d" % i, "entry of an array")
    if elem in ("cell", "same"):
        return (sh, elem), True
    # what a conforming server sends for the same array
    em = Emit(base=10)
    body = "".join(em.emit(("D", i)) if elem == "dict" else "<Nil />" if v is None else em.leaf(v, None) for i, v in enumerate(vals))
    doc = '<Obj RefId="1"><MS><Obj N="mae" RefId="2"><TN RefId="90"><T>System.Collections.ArrayList</T><T>System.Object</T></TN><LST>%s</LST></Obj>' \
          '<Obj N="mal" RefId="3"><TN RefId="91"><T>System.Int32[]</T><T>System.Array</T><T>System.Object</T></TN><LST>%s</LST></Obj></MS></Obj>' % (body, "".join("<I32>%d</I32>" % y for y in sh))
    for src in (x, doc):
        v = r.deserialize(src, ObjectMeta("Obj", object=Array))
        for op in order:
            if op == "array":
                same(v.array, value, "array read after %s" % (order,), "array read back")
            elif op == "mae":
                same(list(v.mae), vals, "entries read after %s" % (order,), "entries of an array read back")
            elif op == "mal":
                same(list(v.mal), list(sh), "lengths read after %s" % (order,), "lengths of an array read back")
            else:
                same(enc(s.serialize(v)), x, "sent again after %s" % (order,), "received array sent again")
    return (sh, elem), True


D1 = list(level(LEAVES, 2)) + LEAVES
S1 = list(level(LEAVES, 2, SKINDS)) + LEAVES
D1s = [k + c for k in KINDS for c in ((), (1,))] + [1]
S1s = [k + c for k in SKINDS for c in ((), (1,))] + [1]


def big(s, r, n, shape, kinds):
    """documents of many objects and many type lists"""
    from pypsrp.complex_objects import GenericComplexObject
    from pypsrp.serializer import TaggedValue
    if shape == "wide":
        tree(s, r, kinds[0] + tuple(k + (i,) for i, k in zip(range(n), itertools.cycle(kinds))), TaggedValue)
    elif shape == "deep":
        t = kinds[0] + (1,)
        for i, k in zip(range(n), itertools.cycle(kinds)):
            t = k + (t,)
        tree(s, r, t, TaggedValue)
    elif shape == "refs":
        # every node refers to ones already written, the depth stays small
        of = {"n%d" % i: k + ("n%d" % (i // 2), i % 5, "n%d" % (i // 3)) for i, k in zip(range(1, n), itertools.cycle(kinds))}
        of["n0"] = ("L",) + tuple("n%d" % i for i in range(1, n))
        graph_recv(r, of)
        sent = {m: OBJ[i % len(OBJ)] + kids(t) for i, (m, t) in enumerate(of.items())}
        sent["n0"] = OBJ[1] + tuple("n%d" % i for i in range(1, n))
        graph_send(s, sent, "props")
    else:
        m = {"types": n, "shared": n // 2 + 1}[shape]
        want = [["T%d" % (i % m), "System.Object"] for i in range(n)]
        objs = []
        for i, t in enumerate(want):
            o = GenericComplexObject()
            o.types = list(t)
            o.adapted_properties["i"] = i
            objs.append(o)
        x = enc(s.serialize(objs))
        got = [(list(c.types), clixml.plain(c)["i"]) for c in clixml.Decoder().decode(x).cont[1]]
        same(got, [(t, i) for i, t in enumerate(want)], "objects a conforming reader finds", "type lists of many objects")
        back = r.deserialize(x)
        same([(b.types, b.adapted_properties["i"]) for b in back], [(t, i) for i, t in enumerate(want)], "objects read back", "type lists of many objects read back")
    return (n, shape, kinds), True


BIG = [(("L",), ("D",)), (("O", 1, "m"), ("Q",), ("K",)), (("Q",), ("O", 2, "p"), ("D",))]


def cases(tier):
    thorough = tier == "thorough"
    out = [["session", "plain"], ["session", "pre"]]
    for i in range(len(OBJ) - (0 if thorough else 2)):
        out.append(["gsend", i, "props"])
        out.append(["gsend", i, "list"])
    out.append(["gsend", 0, "dict"])
    ng = len(GK)
    for i in range(ng):
        for j in range(ng):
            if thorough or True:
                out.append(["grecv", i, j])
    for i in range(len(KINDS)):
        out.append(["tree2", i])
    for i in range(len(SKINDS)):
        out.append(["recv2", i])
    for i in range(len(KINDS)):
        out.append(["tree3", i])
    for i in range(len(SKINDS)):
        out.append(["recv3", i])
    out += [["big", i] for i in range(len(BIG))]
    out += [["custom"], ["arrays"], ["skipped"], ["pre"]] + [["marray", e] for e in MARRAY] + [["known", n] for n in KNOWN]
    return out


GK = [("L",), ("A",), ("D",), ("O", 0, "m"), ("O", 1, "m"), ("Q",), ("K",)]


def run_case(case, rep):
    from pypsrp.serializer import Serializer, TaggedValue
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    s, r = Serializer(), Serializer()
    k = case[0]

    def go(fn, *a):
        rep.execute(lambda: fn(*a), case=case, choices=lambda: repr(a[1:]))
    if k == "tree2":
        kd = KINDS[case[1]]
        below = D1 if thorough else D1s + D1[:3]
        for n in range(3):
            for c in itertools.product(below if n == 2 else D1, repeat=n):
                go(lambda _, t: tree(s, r, t, TaggedValue), s, kd + c)
    elif k == "tree3":
        kd = KINDS[case[1]]
        for b in KINDS:
            for c in (itertools.product(D1 if thorough else D1s, repeat=2) if thorough else itertools.product(D1s, repeat=1)):
                for x in (c, c + (1,)) if len(c) == 1 else (c,):
                    go(lambda _, t: tree(s, r, t, TaggedValue), s, kd + (b + x,))
                    if len(c) == 1:
                        for e in KINDS:
                            go(lambda _, t: tree(s, r, t, TaggedValue), s, kd + (e + (b + x,), c[0]))
    elif k == "recv2":
        kd = SKINDS[case[1]]
        below = S1 if thorough else S1s
        for n in range(3):
            for c in itertools.product(below if n == 2 else S1, repeat=n):
                go(recv, r, kd + c)
    elif k == "recv3":
        kd = SKINDS[case[1]]
        for b in SKINDS:
            for e in SKINDS:
                for x in S1s:
                    go(recv, r, kd + (b + (e + (x,), 1), "a"))
    elif k == "gsend":
        first = OBJ[case[1]]
        nodes = 3
        names = ["n%d" % i for i in range(nodes)]
        for k2 in (OBJ if thorough else [OBJ[1]]):
            for ch in itertools.product(itertools.product([7] + names, repeat=2), repeat=nodes):
                of = {"n0": first + ch[0], "n1": k2 + ch[1], "n2": OBJ[2] + ch[2]}
                go(lambda _, g: graph_send(s, g, case[2]), s, of)
    elif k == "grecv":
        a, b = GK[case[1]], GK[case[2]]
        names = ["n0", "n1", "n2"]
        for c in ([("O", 2, "p"), ("L",), ("D",)] if thorough else [("O", 2, "p")]):
            for ch in itertools.product(itertools.product([7] + names, repeat=2), repeat=2):
                for last in (itertools.product([7] + names, repeat=2) if thorough else [(7, 7), ("n0", "n1")]):
                    of = {"n0": a + ch[0], "n1": b + ch[1], "n2": c + last}
                    if reach(of):
                        go(graph_recv, r, of)
    elif k == "big":
        for n in ((20, 64, 257, 1030, 5000) if thorough else (20, 257, 1030)):
            for shape in ("wide", "refs", "types", "shared"):
                go(lambda _, *a: big(s, r, *a), s, n, shape, BIG[case[1]])
        for n in range(10, 61, 10):
            go(lambda _, *a: big(s, r, *a), s, n, "deep", BIG[case[1]])
    elif k == "custom":
        for ts in itertools.product(CUSTOM, repeat=2):
            for kinds in itertools.product("LEDQKO", repeat=2):
                go(custom, s, ts, kinds)
    elif k == "arrays":
        for p in ARRAYS:
            for n in range(4):
                for nest in itertools.product(FITS.get(p, FITS[None]), repeat=n):
                    go(typed_list, r, p, n, nest)
    elif k == "known":
        n = len(KNOWN[case[1]][1])
        ks = range(n + 1) if n < 6 or thorough else (0, 1, n - 1, n)
        for size in ks:
            for there in itertools.combinations(range(n), size):
                for nil in ((),) + tuple((i,) for i in there):
                    for where in ("top", "list", "shared", "bag", "dict"):
                        for prefix in ("", "Deserialized."):
                            go(lambda _, *a: known(*a), s, case[1], there, nil, where, prefix)
    elif k == "marray":
        for sh in shapes(4 if thorough else 3, 3):
            for order in itertools.permutations(("array", "mae", "mal", "send")) if case[1] not in ("cell", "same") else [()]:
                go(lambda _, *a: marray(s, r, *a), s, sh, case[1], order)
    elif k == "skipped":
        for where in ("unknown", "raw", "bag-list", "boxed"):
            for how in ("ref", "tnref"):
                for t in S1s:
                    if isinstance(t, tuple) and not (how == "tnref" and t[0] == "O" and t[1] == 0):
                        go(skipped, r, where, t, how)
        for where, share in (("error", "slot"), ("error", "exception"), ("error", "later"), ("size", ""), ("mandatory", "")):
            go(slots, r, where, share)
    elif k == "pre":
        for pos in ("list", "dict", "bag", "param", "twice"):
            for m in itertools.product(D1s, D1s + ["same"]):
                go(lambda _, m: pre(s, m, pos, TaggedValue), s, m)
    else:
        rep.execute(lambda: session(case[1]), case=case)


def reach(of):
    """Every node is reachable from n0."""
    seen, todo = {"n0"}, ["n0"]
    while todo:
        for k in kids(of[todo.pop()]):
            if isinstance(k, str) and k in of and k not in seen:
                seen.add(k)
                todo.append(k)
    return len(seen) == len(of)
