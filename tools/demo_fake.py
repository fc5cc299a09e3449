"""A tiny in-memory WinRM/PSRP endpoint for the demonstrations: it replaces HTTPAdapter.send, so nothing
touches the network. A handler gets (action, root element, request, kwargs) and returns body XML, a
(status, text) pair, or raises a requests exception."""
import base64, struct, uuid
import xml.etree.ElementTree as ET
import requests, signal
signal.alarm(30)
from requests.adapters import HTTPAdapter

NS = {"s": "http://www.w3.org/2003/05/soap-envelope", "wsa": "http://schemas.xmlsoap.org/ws/2004/08/addressing",
      "w": "http://schemas.dmtf.org/wbem/wsman/1/wsman.xsd", "rsp": "http://schemas.microsoft.com/wbem/wsman/1/windows/shell",
      "wsmv": "http://schemas.microsoft.com/wbem/wsman/1/wsman.xsd"}
XMLNS = " ".join('xmlns:%s="%s"' % kv for kv in NS.items())

def respond(request, status, data, headers=None):
    r = requests.Response()
    r.status_code = status
    r._content = data if isinstance(data, bytes) else data.encode("utf-8")
    r.headers["Content-Type"] = "application/soap+xml;charset=UTF-8"
    for k, v in (headers or {}).items(): r.headers[k] = v
    r.request = request; r.url = request.url; r.encoding = "utf-8"; r.reason = "x"
    return r

def envelope(mid, body, header=""):
    return '<s:Envelope %s><s:Header><wsa:RelatesTo>%s</wsa:RelatesTo>%s</s:Header><s:Body>%s</s:Body></s:Envelope>' % (XMLNS, mid, header, body)

def fault(mid, code, msg="fault"):
    return envelope(mid, '<s:Fault><s:Code><s:Value>s:Receiver</s:Value></s:Code><s:Reason><s:Text>%s</s:Text></s:Reason>'
        '<s:Detail><f:WSManFault xmlns:f="http://schemas.microsoft.com/wbem/wsman/1/wsmanfault" Code="%s" Machine="m"><f:Message>%s</f:Message></f:WSManFault></s:Detail></s:Fault>' % (msg, code, msg))

def install(handler):
    def send(self, request, **kw):
        body = request.body or b""
        if isinstance(body, str): body = body.encode()
        root = ET.fromstring(body) if body.startswith(b"<") else None
        action = root.findtext("s:Header/wsa:Action", namespaces=NS).rsplit("/", 1)[1] if root is not None else ""
        mid = root.findtext("s:Header/wsa:MessageID", namespaces=NS) if root is not None else ""
        out = handler(action, root, request, kw)
        if isinstance(out, requests.Response): return out
        if isinstance(out, tuple):
            st, text = out[0], out[1]
            if isinstance(text, int): text = fault(mid, text)
            return respond(request, st, text)
        return respond(request, 200, envelope(mid, out))
    HTTPAdapter.send = send

def unfragment(blobs, table):
    """strict reassembly; table maps object id -> list of pieces; returns finished messages"""
    done = []
    for data in blobs:
        while data:
            oid, fid, flags, n = struct.unpack(">QQBI", data[:21])
            piece, data = data[21:21 + n], data[21 + n:]
            assert len(piece) == n, "truncated fragment"
            cur = table.setdefault(oid, [])
            assert fid == len(cur), "fragment ids out of order"
            assert bool(flags & 1) == (fid == 0), "start flag wrong"
            cur.append(piece)
            if flags & 2: done.append((oid, b"".join(table.pop(oid))))
    return done

def message(mtype, rpid, pid, xml):
    return struct.pack("<II", 1, mtype) + uuid.UUID(rpid).bytes_le + uuid.UUID(pid or "00000000-0000-0000-0000-000000000000").bytes_le + b"\xef\xbb\xbf" + xml.encode()

def frag(oid, data, cuts=()):
    """fragments of one message, cut at the given offsets"""
    edges = [0] + list(cuts) + [len(data)]
    out = []
    for i in range(len(edges) - 1):
        p = data[edges[i]:edges[i + 1]]
        out.append(struct.pack(">QQBI", oid, i, (i == 0) | ((i == len(edges) - 2) << 1), len(p)) + p)
    return out

class Server:
    """A PSRP pool that opens at once and runs pipelines from self.script(server, pid, created_xml) ->
    list of receive bodies (each a list of fragment bytes) for that pipeline"""
    def __init__(self, script=None, max_size=True):
        self.table, self.msgs, self.pool, self.next = {}, [], None, 1
        self.opened, self.script, self.out, self.log, self.cmds = False, script, {}, [], []
        self.hook = None; self.sizes = []
        install(self.handle)
    def oid(self):
        self.next += 1; return self.next - 1
    def take(self, blobs):
        for oid, m in unfragment(blobs, self.table):
            dest, typ = struct.unpack("<II", m[:8])
            self.msgs.append((typ, str(uuid.UUID(bytes_le=m[24:40])), m[40:].decode("utf-8-sig")))
    def stream(self, fr, cmd=None, done=False):
        c = ' CommandId="%s"' % cmd if cmd else ""
        x = "".join('<rsp:Stream Name="stdout"%s>%s</rsp:Stream>' % (c, base64.b64encode(f).decode()) for f in fr)
        if done: x += '<rsp:CommandState CommandId="%s" State="http://schemas.microsoft.com/wbem/wsman/1/windows/shell/CommandState/Done"/>' % cmd
        return "<rsp:ReceiveResponse>%s</rsp:ReceiveResponse>" % x
    def handle(self, action, root, request, kw):
        self.log.append(action); self.sizes.append(len(request.body or b""))
        if self.hook:
            r = self.hook(action, root, request, kw)
            if r is not None: return r
        if action == "Create":
            sh = root.find("s:Body/rsp:Shell", NS); self.pool = sh.get("ShellId")
            cx = [e for e in sh if e.tag.endswith("creationXml")][0]
            self.take([base64.b64decode(cx.text)])
            return '<rsp:Shell><rsp:ShellId>%s</rsp:ShellId></rsp:Shell>' % self.pool
        if action == "Send":
            st = root.findall("s:Body/rsp:Send/rsp:Stream", NS)
            self.take([base64.b64decode(s.text) for s in st]); return "<rsp:SendResponse/>"
        if action == "Command":
            c = root.find("s:Body/rsp:CommandLine", NS); pid = c.get("CommandId")
            self.take([base64.b64decode(c.findtext("rsp:Arguments", namespaces=NS))])
            self.cmds.append(pid)
            self.out[pid] = None
            return "<rsp:CommandResponse><rsp:CommandId>%s</rsp:CommandId></rsp:CommandResponse>" % pid
        if action == "Signal": return "<rsp:SignalResponse/>"
        if action == "Delete": return ""
        if action in ("Disconnect", "Reconnect"): return "<rsp:%sResponse/>" % action
        if action == "Receive":
            ds = root.find("s:Body/rsp:Receive/rsp:DesiredStream", NS); pid = ds.get("CommandId")
            if pid is None:
                if self.opened: return (500, 2150858793)
                self.opened = True
                cap = '<Obj RefId="0"><MS><Version N="protocolversion">2.3</Version><Version N="PSVersion">2.0</Version><Version N="SerializationVersion">1.1.0.1</Version></MS></Obj>'
                st = '<Obj RefId="0"><MS><I32 N="RunspaceState">2</I32></MS></Obj>'
                return self.stream([b"".join(frag(self.oid(), message(0x10002, self.pool, None, cap)) + frag(self.oid(), message(0x21005, self.pool, None, st)))])
            if self.out[pid] is None: self.out[pid] = list(self.script(self, pid))
            if not self.out[pid]: return (500, 2150858793)
            return self.stream(self.out[pid].pop(0), pid, done=not self.out[pid])
    def text(self, pid, s): return message(0x41004, self.pool, pid, "<S>%s</S>" % s)
    def state(self, pid, n=4): return message(0x41006, self.pool, pid, '<Obj RefId="0"><MS><I32 N="PipelineState">%d</I32></MS></Obj>' % n)

def connection(**kw):
    from pypsrp.wsman import WSMan
    a = dict(username="u", password="p", ssl=False, auth="basic", encryption="never"); a.update(kw)
    return WSMan("host", **a)
