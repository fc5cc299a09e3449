"""Independent CLIXML codec (MS-PSRP 2.2.5), strict on decode.  Shares no code with pypsrp."""
import base64
import re
import xml.etree.ElementTree as ET


class Bad(Exception):
    pass


_ESC = re.compile(r"_[xX]([0-9A-Fa-f]{4})_")


def unescape(text):
    """Decode _xHHHH_ UTF-16 code units the way the .NET XmlConvert/CLIXML reader does."""
    if text is None:
        return ""
    out = []
    i = 0
    units = []
    while i < len(text):
        m = _ESC.match(text, i)
        if m:
            units.append(int(m.group(1), 16))
            i = m.end()
        else:
            b = text[i].encode("utf-16-be", "surrogatepass")
            units.extend(int.from_bytes(b[j:j + 2], "big") for j in range(0, len(b), 2))
            i += 1
    raw = b"".join(u.to_bytes(2, "big") for u in units)
    return raw.decode("utf-16-be", "surrogatepass")


def escape(s):
    """What a Windows server would emit for this string."""
    b = s.encode("utf-16-be", "surrogatepass")
    units = [int.from_bytes(b[j:j + 2], "big") for j in range(0, len(b), 2)]
    out = []
    for n, u in enumerate(units):
        nxt = units[n + 1] if n + 1 < len(units) else 0
        if u == 0x5F and nxt in (0x78, 0x58):
            out.append("_x005F_")
        elif u < 0x20 or 0x7F <= u <= 0x9F or 0xD800 <= u <= 0xDFFF or u in (0xFFFE, 0xFFFF):
            out.append("_x%04X_" % u)
        else:
            out.append(chr(u))
    return xml("".join(out))


def xml(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


INT = {"By": (0, 2**8 - 1), "SB": (-2**7, 2**7 - 1), "U16": (0, 2**16 - 1), "I16": (-2**15, 2**15 - 1),
       "U32": (0, 2**32 - 1), "I32": (-2**31, 2**31 - 1), "U64": (0, 2**64 - 1), "I64": (-2**63, 2**63 - 1)}
STR = {"S", "URI", "XD", "SBK"}
TEXT = {"DT", "TS", "D", "G", "Version", "SS"}
CONT = {"LST", "IE", "QUE", "STK"}


def primitive(e):
    t = e.tag
    if t in ("Obj", "Ref"):
        return None
    if len(list(e)):
        raise Bad("primitive <%s> has child elements" % t)
    if t == "Nil":
        return ("Nil",)
    if t in STR:
        return (t, unescape(e.text))
    if t in TEXT:
        if not e.text:
            raise Bad("<%s> without text" % t)
        return (t, e.text)
    if t == "B":
        if e.text not in ("true", "false"):
            raise Bad("<B>%r" % e.text)
        return (t, e.text == "true")
    if t == "C":
        if not e.text or not re.fullmatch(r"\d+", e.text) or int(e.text) > 0xFFFF:
            raise Bad("<C>%r" % e.text)
        return (t, int(e.text))
    if t in INT:
        if not e.text or not re.fullmatch(r"-?\d+", e.text):
            raise Bad("<%s>%r" % (t, e.text))
        v = int(e.text)
        if not INT[t][0] <= v <= INT[t][1]:
            raise Bad("<%s>%d out of range" % (t, v))
        return (t, v)
    if t in ("Sg", "Db"):
        try:
            return (t, repr(float(e.text)))
        except (TypeError, ValueError):
            raise Bad("<%s>%r" % (t, e.text))
    if t == "BA":
        return (t, base64.b64decode(e.text or "", validate=True))
    return None


class Decoder:
    def __init__(self):
        self.tn = {}
        self.objs = {}

    def decode(self, data):
        if isinstance(data, bytes):
            if data.startswith(b"\xef\xbb\xbf"):
                data = data[3:]
            data = data.decode("utf-8")
        try:
            e = ET.fromstring(data)
        except ET.ParseError as err:
            raise Bad("not well-formed XML: %s" % err)
        return self.element(e)

    def element(self, e):
        p = primitive(e)
        if p is not None:
            return p
        if e.tag == "Ref":
            r = e.attrib.get("RefId")
            if r not in self.objs:
                raise Bad("<Ref> to unknown object %s" % r)
            return self.objs[r]
        if e.tag != "Obj":
            raise Bad("unknown element <%s>" % e.tag)
        rid = e.attrib.get("RefId")
        if rid is None:
            raise Bad("<Obj> without RefId")
        if rid in self.objs:
            raise Bad("duplicate Obj RefId %s" % rid)
        self.objs[rid] = ("Cycle", rid)
        o = dict(types=None, tostring=None, props=None, ms=None, value=None, cont=None)
        for c in e:
            if c.tag == "TN":
                t = tuple(unescape(x.text) for x in c)
                tid = c.attrib.get("RefId")
                if tid is None or tid in self.tn:
                    raise Bad("TN RefId %s missing or reused" % tid)
                if o["types"] is not None:
                    raise Bad("two type lists")
                self.tn[tid] = t
                o["types"] = t
            elif c.tag == "TNRef":
                tid = c.attrib.get("RefId")
                if tid not in self.tn:
                    raise Bad("TNRef to unknown type list %s" % tid)
                if o["types"] is not None:
                    raise Bad("two type lists")
                o["types"] = self.tn[tid]
            elif c.tag == "ToString":
                o["tostring"] = unescape(c.text)
            elif c.tag in ("Props", "MS"):
                k = c.tag.lower()
                if o[k] is not None:
                    raise Bad("two <%s>" % c.tag)
                vals = []
                for x in c:
                    n = x.attrib.get("N")
                    if n is None:
                        raise Bad("property without N")
                    n = unescape(n)
                    vals.append((n, self.element(x)))
                if len({n for n, _ in vals}) != len(vals):
                    raise Bad("duplicate property name")
                o[k] = dict(vals)
            elif c.tag in CONT:
                if o["cont"] is not None:
                    raise Bad("two containers")
                o["cont"] = (c.tag, [self.element(x) for x in c])
            elif c.tag == "DCT":
                if o["cont"] is not None:
                    raise Bad("two containers")
                items = []
                for en in c:
                    kv = list(en)
                    if en.tag != "En" or len(kv) != 2 or kv[0].attrib.get("N") != "Key" or kv[1].attrib.get("N") != "Value":
                        raise Bad("malformed dictionary entry")
                    items.append((self.element(kv[0]), self.element(kv[1])))
                o["cont"] = ("DCT", items)
            else:
                if o["value"] is not None:
                    raise Bad("two property-set values")
                o["value"] = self.element(c)
        node = Node(o)
        self.objs[rid] = node
        return node


class Node:
    """A decoded <Obj>.  Compared structurally; identity tells shared references apart."""

    def __init__(self, o):
        self.__dict__.update(o)

    def key(self):
        return ("Obj", self.types, self.tostring, frz(self.props), frz(self.ms), self.value if not isinstance(self.value, Node) else self.value.key(), frz(self.cont))

    def __eq__(self, other):
        return isinstance(other, Node) and self.key() == other.key()

    def __hash__(self):
        return hash(repr(self.key()))

    def __repr__(self):
        return "Obj(%s)" % ", ".join("%s=%r" % (k, v) for k, v in self.__dict__.items() if v is not None)


def frz(v):
    if isinstance(v, Node):
        return v.key()
    if isinstance(v, dict):
        return tuple((k, frz(v[k])) for k in v)
    if isinstance(v, (list, tuple)):
        return tuple(frz(x) for x in v)
    return v


def decode(data):
    return Decoder().decode(data)


def plain(n):
    """Flatten to ordinary Python values (for oracles that do not care about tags)."""
    if isinstance(n, Node):
        if n.cont is not None:
            if n.cont[0] == "DCT":
                return {"$dct": [(plain(k), plain(v)) for k, v in n.cont[1]]}
            return [plain(x) for x in n.cont[1]]
        if n.value is not None:
            return plain(n.value)
        d = {}
        d.update({k: plain(v) for k, v in (n.props or {}).items()})
        d.update({k: plain(v) for k, v in (n.ms or {}).items()})
        return d
    if n[0] == "Nil":
        return None
    return n[1]


# ------------------------------------------------------------ server-side message bodies

def obj(inner, refid=0, name=None):
    return '<Obj%s RefId="%d">%s</Obj>' % (' N="%s"' % name if name else "", refid, inner)


def S(v, name=None):
    return "<S%s>%s</S>" % (' N="%s"' % name if name else "", escape(v))


def session_capability(proto="2.3", ps="2.0", ser="1.1.0.1"):
    return ('<Obj RefId="0"><MS><Version N="protocolversion">%s</Version><Version N="PSVersion">%s</Version>'
            '<Version N="SerializationVersion">%s</Version></MS></Obj>' % (proto, ps, ser))


def app_private(pairs=(("K", "V"),)):
    return ('<Obj RefId="0"><MS><Obj N="ApplicationPrivateData" RefId="1"><TN RefId="0"><T>System.Management.Automation.PSPrimitiveDictionary</T>'
            '<T>System.Collections.Hashtable</T><T>System.Object</T></TN><DCT>%s</DCT></Obj></MS></Obj>'
            % "".join('<En><S N="Key">%s</S><S N="Value">%s</S></En>' % (escape(k), escape(v)) for k, v in pairs))


def pool_state(state, err=None):
    return '<Obj RefId="0"><MS><I32 N="RunspaceState">%d</I32>%s</MS></Obj>' % (state, err or "")


def init_data(mn, mx):
    return '<Obj RefId="0"><MS><I32 N="MinRunspaces">%d</I32><I32 N="MaxRunspaces">%d</I32></MS></Obj>' % (mn, mx)


def availability(value, ci):
    if isinstance(value, bool):
        v = '<B N="SetMinMaxRunspacesResponse">%s</B>' % str(value).lower()
    else:
        v = '<%s N="SetMinMaxRunspacesResponse">%d</%s>' % ("I32" if -2**31 <= value < 2**31 else "I64", value, "I32" if -2**31 <= value < 2**31 else "I64")
    return '<Obj RefId="0"><MS>%s<I64 N="ci">%d</I64></MS></Obj>' % (v, ci)


def error_record(msg, fqid="Err", name=None, refid=0, tostring=None):
    return ('<Obj%s RefId="%d"><TN RefId="%d"><T>System.Management.Automation.ErrorRecord</T><T>System.Object</T></TN><ToString>%s</ToString><MS>'
            '<Obj N="Exception" RefId="%d"><TN RefId="%d"><T>System.Exception</T><T>System.Object</T></TN><ToString>%s</ToString><Props><S N="Message">%s</S></Props></Obj>'
            '<Nil N="TargetObject" /><S N="FullyQualifiedErrorId">%s</S><Nil N="InvocationInfo" /><I32 N="ErrorCategory_Category">7</I32>'
            '<S N="ErrorCategory_Activity">act</S><S N="ErrorCategory_Reason">Reason</S><S N="ErrorCategory_TargetName"></S><S N="ErrorCategory_TargetType"></S>'
            '<S N="ErrorCategory_Message">cat %s</S><B N="SerializeExtendedInfo">false</B></MS></Obj>'
            % (' N="%s"' % name if name else "", refid, refid, escape(msg if tostring is None else tostring), refid + 1, refid + 1, escape(msg), escape(msg), escape(fqid), escape(msg)))


def pipeline_state(state, err=None):
    return '<Obj RefId="0"><MS><I32 N="PipelineState">%d</I32>%s</MS></Obj>' % (
        state, error_record(err, name="ExceptionAsErrorRecord", refid=1) if err is not None else "")


def info_record(kind, msg):
    return ('<Obj RefId="0"><TN RefId="0"><T>System.Management.Automation.%sRecord</T><T>System.Management.Automation.InformationalRecord</T><T>System.Object</T></TN>'
            '<ToString>%s</ToString><MS><S N="InformationalRecord_Message">%s</S><B N="InformationalRecord_SerializeInvocationInfo">false</B></MS></Obj>'
            % (kind, escape(msg), escape(msg)))


def progress(activity, pct=1):
    return ('<Obj RefId="0"><MS><S N="Activity">%s</S><I32 N="ActivityId">0</I32><S N="StatusDescription">d</S><Nil N="CurrentOperation" /><I32 N="ParentActivityId">-1</I32>'
            '<I32 N="PercentComplete">%d</I32><Obj N="Type" RefId="1"><TN RefId="0"><T>System.Management.Automation.ProgressRecordType</T><T>System.Enum</T><T>System.ValueType</T><T>System.Object</T></TN>'
            '<ToString>Processing</ToString><I32>0</I32></Obj><I32 N="SecondsRemaining">-1</I32></MS></Obj>' % (escape(activity), pct))


def information(msg):
    return ('<Obj RefId="0"><TN RefId="0"><T>System.Management.Automation.InformationRecord</T><T>System.Object</T></TN><ToString>%s</ToString><Props><S N="MessageData">%s</S></Props>'
            '<MS><S N="MessageData">%s</S><S N="Source">src</S><DT N="TimeGenerated">2018-01-01T00:00:00.0000000+00:00</DT>'
            '<Obj N="Tags" RefId="1"><TN RefId="1"><T>System.Collections.Generic.List`1[[System.String, mscorlib]]</T><T>System.Object</T></TN><LST><S>PSHOST</S></LST></Obj>'
            '<S N="User">u</S><S N="Computer">c</S><U32 N="ProcessId">12</U32><U32 N="NativeThreadId">0</U32><U32 N="ManagedThreadId">15</U32></MS></Obj>'
            % (escape(msg), escape(msg), escape(msg)))


def user_event(eid, data="d"):
    return ('<Obj RefId="0"><MS><I32 N="PSEventArgs.EventIdentifier">%d</I32><S N="PSEventArgs.SourceIdentifier">src</S><DT N="PSEventArgs.TimeGenerated">2018-01-01T00:00:00Z</DT>'
            '<Nil N="PSEventArgs.Sender" /><Nil N="PSEventArgs.SourceArgs" /><S N="PSEventArgs.MessageData">%s</S><S N="PSEventArgs.ComputerName">c</S>'
            '<G N="PSEventArgs.RunspaceId">fd4a2f28-0001-4c3a-9bf1-111111111111</G></MS></Obj>' % (eid, escape(data)))


def host_call(ci, mi, name, params_xml):
    return ('<Obj RefId="0"><MS><I64 N="ci">%d</I64><Obj N="mi" RefId="1"><TN RefId="0"><T>System.Management.Automation.Remoting.RemoteHostMethodId</T><T>System.Enum</T><T>System.ValueType</T><T>System.Object</T></TN>'
            '<ToString>%s</ToString><I32>%d</I32></Obj><Obj N="mp" RefId="2"><TN RefId="1"><T>System.Collections.ArrayList</T><T>System.Object</T></TN><LST>%s</LST></Obj></MS></Obj>'
            % (ci, name, mi, params_xml))


def session_key(b64):
    return '<Obj RefId="0"><MS><S N="EncryptedSessionKey">%s</S></MS></Obj>' % b64
