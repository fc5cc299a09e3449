"""A reference WSMan + PSRP + WinRS server, in process, behind requests' HTTPAdapter.send.

It is strict: anything a Windows server would reject or misread is recorded in `errors`, and every nondeterministic
answer (what a Receive returns, when it times out, which fault comes back) is a decision of the check that drives it."""
import base64
import collections
import re
import xml.etree.ElementTree as ET

from . import clixml, wire
from .env import W, response, start

NS = {
    "s": "http://www.w3.org/2003/05/soap-envelope",
    "wsa": "http://schemas.xmlsoap.org/ws/2004/08/addressing",
    "wsman": "http://schemas.dmtf.org/wbem/wsman/1/wsman.xsd",
    "wsmv": "http://schemas.microsoft.com/wbem/wsman/1/wsman.xsd",
    "rsp": "http://schemas.microsoft.com/wbem/wsman/1/windows/shell",
    "wst": "http://schemas.xmlsoap.org/ws/2004/09/transfer",
    "wsen": "http://schemas.xmlsoap.org/ws/2004/09/enumeration",
    "pwsh": "http://schemas.microsoft.com/powershell",
    "cfg": "http://schemas.microsoft.com/wbem/wsman/1/config",
}
FAULT_NS = "http://schemas.microsoft.com/wbem/wsman/1/wsmanfault"
TIMEDOUT = 2150858793
UNEXPECTED_SELECTORS = 2150858843
ACCESS_DENIED = 5

ACTIONS = {
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Get": "Get",
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Put": "Put",
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Create": "Create",
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Delete": "Delete",
    "http://schemas.xmlsoap.org/ws/2004/09/enumeration/Enumerate": "Enumerate",
    "http://schemas.xmlsoap.org/ws/2004/09/enumeration/Pull": "Pull",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Command": "Command",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Connect": "Connect",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Disconnect": "Disconnect",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Receive": "Receive",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Reconnect": "Reconnect",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Send": "Send",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Signal": "Signal",
}

_XMLNS = " ".join('xmlns:%s="%s"' % kv for kv in NS.items())


def q(tag):
    p, t = tag.split(":")
    return "{%s}%s" % (NS[p], t)


class Fault(Exception):
    """Answer the request with a WSMan fault (HTTP 500)."""

    def __init__(self, code, message="fault message", subcode="wsman:InternalError"):
        self.code, self.message, self.subcode = code, message, subcode


class Raw(Exception):
    """Answer the request with exactly this HTTP response."""

    def __init__(self, status, body, headers=None):
        self.status, self.body, self.headers = status, body, headers


class Req:
    def __init__(self, data, timeout):
        self.data = data
        self.timeout = timeout
        env = ET.fromstring(data)
        self.env = env
        h = env.find("s:Header", NS)
        self.header = h
        self.body = env.find("s:Body", NS)

        def text(path):
            e = h.find(path, NS)
            return e.text if e is not None else None
        self.action_uri = text("wsa:Action")
        self.action = ACTIONS.get(self.action_uri, self.action_uri)
        self.message_id = text("wsa:MessageID")
        self.resource_uri = text("wsman:ResourceURI")
        self.op_timeout = text("wsman:OperationTimeout")
        self.max_env = text("wsman:MaxEnvelopeSize")
        self.session_id = text("wsmv:SessionId")
        self.to = text("wsa:To")
        self.selectors = {e.attrib.get("Name"): e.text for e in h.findall("wsman:SelectorSet/wsman:Selector", NS)}
        self.options = [(e.attrib.get("Name"), e.text, e.attrib.get("MustComply")) for e in h.findall("wsman:OptionSet/wsman:Option", NS)]
        self.command_id = None
        self.stream = None
        self.info = {}


class Pipe:
    def __init__(self, shell, cid, pid=None):
        self.shell, self.id = shell, cid
        self.reasm = wire.Reassembler()
        self.msgs = []
        self.out = collections.deque()
        self.created = None
        self.stopped = False
        self.terminated = False
        self.signals = []
        self.inputs = []
        self.input_ended = False
        self.pid = None
        self.done = False
        self.connected = True


class Shell:
    def __init__(self, sid, uri):
        self.id, self.uri = sid, uri
        self.reasm = wire.Reassembler()
        self.pr = wire.Reassembler()
        self.msgs = []
        self.host_responses = []
        self.out = collections.deque()
        self.pipes = {}
        self.state = "Connected"
        self.oid = 0
        self.rpid = None
        self.closed = False
        self.opened = False
        self.caps = None
        self.init = None
        self.create_xml = None
        self.owner_session = None


class Server:
    frag_size = 32000
    bom = True
    protocol = "2.3"

    def __init__(self):
        self.shells = {}
        self.log = []
        self.errors = []
        self.sent_sizes = []
        self.oversize = []
        self.check_size = True
        self.command_ids = "same"
        self.cmd_n = 0
        self.shell_n = 0

    # ---- transport seam
    def install(self, horizon=400):
        start(self.http, horizon=horizon)
        return self

    def http(self, adapter, request, kw):
        data = request.body or b""
        if isinstance(data, str):
            data = data.encode("utf-8")
        status, body, headers = self.answer(data, kw.get("timeout"))
        return response(adapter, request, status, body, headers)

    def answer(self, data, timeout=None):
        try:
            req = Req(data, timeout)
        except ET.ParseError as e:
            self.errors.append("request is not XML: %s" % e)
            return 400, b"", None
        self.log.append(req)
        self.sent_sizes.append(len(data))
        if self.check_size and req.max_env is not None and len(data) > int(req.max_env):
            self.oversize.append((req.action, len(data), int(req.max_env)))
        try:
            self.before(req)
            body = getattr(self, "on_" + str(req.action), self.on_unknown)(req)
            out = self.after(req, body)
            return 200, self.envelope(req, out), None
        except Fault as f:
            return 500, self.fault_envelope(req, f), None
        except Raw as r:
            return r.status, r.body, r.headers
        except wire.WireError as e:
            self.errors.append("%s: %s" % (req.action, e))
            return 500, self.fault_envelope(req, Fault(ACCESS_DENIED, "bad PSRP data: %s" % e)), None
        except clixml.Bad as e:
            self.errors.append("%s: bad CLIXML: %s" % (req.action, e))
            return 500, self.fault_envelope(req, Fault(ACCESS_DENIED, "bad CLIXML: %s" % e)), None

    def before(self, req):
        pass

    def after(self, req, body):
        return body

    def on_unknown(self, req):
        self.errors.append("unexpected action %s" % req.action_uri)
        raise Fault(ACCESS_DENIED, "unexpected action")

    def envelope(self, req, body):
        return ('<s:Envelope %s><s:Header><wsa:Action>%sResponse</wsa:Action><wsa:MessageID>uuid:R-%d</wsa:MessageID>'
                '<wsa:RelatesTo>%s</wsa:RelatesTo></s:Header><s:Body>%s</s:Body></s:Envelope>'
                % (_XMLNS, req.action_uri, len(self.log), req.message_id, body)).encode("utf-8")

    def fault_envelope(self, req, f):
        return ('<s:Envelope %s><s:Header><wsa:RelatesTo>%s</wsa:RelatesTo></s:Header><s:Body><s:Fault><s:Code><s:Value>s:Receiver</s:Value>'
                '<s:Subcode><s:Value>%s</s:Value></s:Subcode></s:Code><s:Reason><s:Text xml:lang="en-US">%s</s:Text></s:Reason><s:Detail>'
                '<f:WSManFault xmlns:f="%s" Code="%s" Machine="srv"><f:Message>%s</f:Message></f:WSManFault></s:Detail></s:Fault></s:Body></s:Envelope>'
                % (_XMLNS, req.message_id, f.subcode, clixml.xml(f.message), FAULT_NS, f.code, clixml.xml(f.message))).encode("utf-8")

    # ---- shells
    def shell_for(self, req):
        sid = req.selectors.get("ShellId")
        sh = self.shells.get((sid or "").upper())
        if sh is None or sh.closed:
            raise Fault(UNEXPECTED_SELECTORS, "The request contained invalid selectors")
        req.shell = sh
        return sh

    def new_shell_id(self):
        self.shell_n += 1
        return "5E11000%d-0000-4000-8000-00000000000%d" % (self.shell_n, self.shell_n)

    def on_Create(self, req):
        e = req.body.find("rsp:Shell", NS)
        sid = e.attrib.get("ShellId") or self.new_shell_id()
        if sid.upper() in self.shells:
            self.errors.append("Create for existing shell %s" % sid)
        sh = Shell(sid, req.resource_uri)
        sh.create_xml = e
        sh.owner_session = req.session_id
        self.shells[sid.upper()] = sh
        req.shell = sh
        cx = e.find("pwsh:creationXml", NS)
        if cx is not None:
            self.feed_pool(sh, base64.b64decode(cx.text, validate=True), "creationXml")
        return ('<wst:ResourceCreated><wsa:Address>x</wsa:Address><wsa:ReferenceParameters><wsman:ResourceURI>%s</wsman:ResourceURI>'
                '<wsman:SelectorSet><wsman:Selector Name="ShellId">%s</wsman:Selector></wsman:SelectorSet></wsa:ReferenceParameters></wst:ResourceCreated>'
                '<rsp:Shell><rsp:ShellId>%s</rsp:ShellId><rsp:ResourceUri>%s</rsp:ResourceUri><rsp:Owner>o</rsp:Owner></rsp:Shell>' % (sh.uri, sid, sid, sh.uri))

    def feed_pool(self, sh, blob, where):
        for m in sh.reasm.feed(blob):
            sh.msgs.append(m)
            self.check_msg(sh, None, m)
            self.on_pool_message(sh, m)

    def check_msg(self, sh, pipe, m):
        if m.dest != 2:
            self.errors.append("message %#x has destination %d, not the server" % (m.type, m.dest))
        if sh.rpid is None:
            sh.rpid = m.rpid
        elif m.rpid != sh.rpid:
            self.errors.append("message %#x carries runspace pool id %s, not %s" % (m.type, m.rpid, sh.rpid))
        if pipe is None:
            if m.pid != wire.NIL:
                self.errors.append("pool message %#x carries a pipeline id" % m.type)
        else:
            if pipe.pid is None:
                pipe.pid = m.pid
            elif pipe.pid != m.pid:
                self.errors.append("message %#x carries pipeline id %s, not %s" % (m.type, m.pid, pipe.pid))

    def send(self, sh, pipe, mtype, body, frag_size=None, oid=None):
        """Queue one message for the client: each fragment becomes one deliverable blob."""
        if oid is None:
            sh.oid += 1
            oid = sh.oid
        raw = wire.message(mtype, body, sh.rpid or wire.NIL, (pipe.pid if pipe is not None and pipe.pid else wire.NIL), bom=self.bom)
        q_ = (pipe or sh).out
        frs = wire.split(oid, raw, frag_size or self.frag_size)
        q_.extend(frs)
        return frs

    def on_pool_message(self, sh, m):
        if m.type == wire.SESSION_CAPABILITY:
            sh.caps = clixml.decode(m.body)
        elif m.type == wire.INIT_RUNSPACEPOOL:
            sh.init = clixml.decode(m.body)
            self.opened(sh)
        elif m.type == wire.CONNECT_RUNSPACEPOOL:
            pass
        else:
            self.on_pool_other(sh, m)

    def opened(self, sh):
        sh.opened = True
        self.send(sh, None, wire.SESSION_CAPABILITY, clixml.session_capability(self.protocol))
        self.send(sh, None, wire.APP_PRIVATE, clixml.app_private())
        self.send(sh, None, wire.POOL_STATE, clixml.pool_state(2))

    def on_pool_other(self, sh, m):
        pass

    def on_Delete(self, req):
        sh = self.shell_for(req)
        sh.closed = True
        return ""

    def on_Command(self, req):
        sh = self.shell_for(req)
        cl = req.body.find("rsp:CommandLine", NS)
        cid = cl.attrib.get("CommandId")
        if self.command_ids == "server" or cid is None:
            self.cmd_n += 1
            cid = "C0AA000%d-0000-4000-8000-00000000000%d" % (self.cmd_n, self.cmd_n)
        if cid.upper() in sh.pipes and not sh.pipes[cid.upper()].terminated:
            self.errors.append("Command with the id of a live command")
            raise Fault(ACCESS_DENIED, "duplicate command id")
        p = Pipe(sh, cid)
        sh.pipes[cid.upper()] = p
        req.pipe = p
        req.info["cmd"] = (cl.find("rsp:Command", NS).text or "", [a.text or "" for a in cl.findall("rsp:Arguments", NS)])
        self.command(req, sh, p)
        return "<rsp:CommandResponse><rsp:CommandId>%s</rsp:CommandId></rsp:CommandResponse>" % cid

    def command(self, req, sh, p):
        if "powershell" in sh.uri:
            args = req.info["cmd"][1]
            if len(args) != 1:
                self.errors.append("PSRP command with %d arguments" % len(args))
            self.feed_pipe(sh, p, base64.b64decode(args[0], validate=True))

    def feed_pipe(self, sh, p, blob):
        for m in p.reasm.feed(blob):
            p.msgs.append(m)
            self.check_msg(sh, p, m)
            if m.type == wire.PIPELINE_INPUT:
                if p.input_ended:
                    self.errors.append("pipeline input after end of input")
                p.inputs.append(m.body)
            elif m.type == wire.END_OF_INPUT:
                if p.input_ended:
                    self.errors.append("two end-of-input messages")
                p.input_ended = True
            elif m.type in (wire.CREATE_PIPELINE, wire.GET_COMMAND_METADATA):
                if p.created is not None:
                    self.errors.append("two create-pipeline messages")
                p.created = clixml.decode(m.body)
            self.on_pipe_message(sh, p, m)

    def on_pipe_message(self, sh, p, m):
        pass

    def pipe_for(self, req, cid):
        sh = self.shell_for(req)
        p = sh.pipes.get((cid or "").upper())
        if p is None or p.terminated:
            raise Fault(UNEXPECTED_SELECTORS, "unknown command id %s" % cid)
        req.pipe = p
        return sh, p

    def on_Send(self, req):
        st = req.body.find("rsp:Send/rsp:Stream", NS)
        cid = st.attrib.get("CommandId")
        blob = base64.b64decode(st.text or "", validate=True)
        name = st.attrib.get("Name")
        req.stream, req.command_id = name, cid
        req.info["end"] = st.attrib.get("End")
        req.info["data"] = blob
        if cid is None:
            sh = self.shell_for(req)
            if name == "pr":
                for m in sh.pr.feed(blob):
                    sh.host_responses.append(m)
                    self.on_host_response(sh, m)
            else:
                self.feed_pool(sh, blob, "send")
        else:
            sh, p = self.pipe_for(req, cid)
            if "powershell" in sh.uri:
                if name == "pr":
                    for m in sh.pr.feed(blob):
                        sh.host_responses.append(m)
                        self.on_host_response(sh, m)
                else:
                    self.feed_pipe(sh, p, blob)
            else:
                self.on_stdin(sh, p, blob, st.attrib.get("End"))
        return "<rsp:SendResponse/>"

    def on_stdin(self, sh, p, blob, end):
        p.inputs.append((blob, end))

    def on_host_response(self, sh, m):
        pass

    def on_Receive(self, req):
        ds = req.body.find("rsp:Receive/rsp:DesiredStream", NS)
        cid = ds.attrib.get("CommandId")
        req.command_id, req.stream = cid, ds.text
        if cid is None:
            sh = self.shell_for(req)
            return self.receive(req, sh, None)
        sh, p = self.pipe_for(req, cid)
        return self.receive(req, sh, p)

    def receive(self, req, sh, p):
        """Default answer: the next queued blob, or an operation timeout when nothing is queued."""
        q_ = (p or sh).out
        blobs = self.take(req, q_)
        if not blobs:
            raise Fault(TIMEDOUT, "The WS-Management service cannot complete the operation within the time specified in OperationTimeout.")
        return self.stream_body(blobs, p)

    def take(self, req, q_):
        return [q_.popleft()] if q_ else []

    def stream_body(self, blobs, p=None):
        cid = ' CommandId="%s"' % p.id if p is not None else ""
        return "<rsp:ReceiveResponse>%s</rsp:ReceiveResponse>" % "".join(
            '<rsp:Stream Name="stdout"%s>%s</rsp:Stream>' % (cid, base64.b64encode(b).decode()) for b in blobs)

    def on_Signal(self, req):
        sg = req.body.find("rsp:Signal", NS)
        cid = sg.attrib.get("CommandId")
        code = sg.find("rsp:Code", NS).text
        sh, p = self.pipe_for(req, cid)
        p.signals.append(code)
        req.info["code"] = code
        if code.endswith("signal/Terminate"):
            p.terminated = True
        elif code == "powershell/signal/ctrl_c":
            p.stopped = True
            p.done = True
        return "<rsp:SignalResponse/>"

    def on_Disconnect(self, req):
        sh = self.shell_for(req)
        if sh.state != "Connected":
            self.errors.append("Disconnect of a shell in state %s" % sh.state)
        sh.state = "Disconnected"
        for p in sh.pipes.values():
            p.connected = False
        return "<rsp:DisconnectResponse/>"

    def on_Reconnect(self, req):
        sh = self.shell_for(req)
        sh.state = "Connected"
        return "<rsp:ReconnectResponse/>"

    def on_Connect(self, req):
        sh = self.shell_for(req)
        e = req.body.find("rsp:Connect", NS)
        cid = e.attrib.get("CommandId")
        if cid is not None:
            sh, p = self.pipe_for(req, cid)
            p.connected = True
            return "<rsp:ConnectResponse/>"
        cx = e.find("pwsh:connectXml", NS)
        sh.reasm = wire.Reassembler()
        self.feed_pool(sh, base64.b64decode(cx.text, validate=True), "connectXml")
        sh.state = "Connected"
        body = b""
        for mt, b in ((wire.SESSION_CAPABILITY, clixml.session_capability(self.protocol)), (wire.RUNSPACEPOOL_INIT_DATA, clixml.init_data(*self.sizes(sh))), (wire.APP_PRIVATE, clixml.app_private())):
            sh.oid += 1
            body += wire.fragment(sh.oid, 0, True, True, wire.message(mt, b, sh.rpid, bom=self.bom))
        self.send(sh, None, wire.POOL_STATE, clixml.pool_state(2))
        return '<rsp:ConnectResponse><connectResponseXml xmlns="%s">%s</connectResponseXml></rsp:ConnectResponse>' % (NS["pwsh"], base64.b64encode(body).decode())

    def sizes(self, sh):
        return (1, 1)

    def on_Enumerate(self, req):
        if req.resource_uri.endswith("/shell"):
            items = "".join("<rsp:Shell><rsp:ShellId>%s</rsp:ShellId><rsp:State>%s</rsp:State></rsp:Shell>" % (s.id, s.state) for s in self.shells.values() if not s.closed)
        else:
            f = req.body.find("wsen:Enumerate/wsman:Filter/wsman:SelectorSet/wsman:Selector", NS)
            sh = self.shells.get((f.text or "").upper()) if f is not None else None
            items = ""
            if sh is not None:
                items = "".join("<rsp:Command><rsp:ShellId>%s</rsp:ShellId><rsp:CommandId>%s</rsp:CommandId></rsp:Command>" % (sh.id, p.id) for p in sh.pipes.values() if not p.terminated)
        return "<wsen:EnumerateResponse><wsman:Items>%s</wsman:Items><wsman:EndOfSequence/></wsen:EnumerateResponse>" % items

    config_kb = 500

    def on_Get(self, req):
        if req.resource_uri.endswith("/config"):
            return "<cfg:Config><cfg:MaxEnvelopeSizekb>%d</cfg:MaxEnvelopeSizekb></cfg:Config>" % self.config_kb
        sh = self.shell_for(req)
        return "<rsp:Shell><rsp:ShellId>%s</rsp:ShellId><rsp:State>%s</rsp:State></rsp:Shell>" % (sh.id, sh.state)

    def actions(self):
        return [r.action for r in self.log]


class ScriptServer(Server):
    """Runs every pipeline to completion with a scripted list of messages."""

    def __init__(self, script=None):
        super().__init__()
        self.script = script or [(wire.OUTPUT, "<S>out</S>"), (wire.PIPE_STATE, clixml.pipeline_state(4))]

    def on_pipe_message(self, sh, p, m):
        if m.type in (wire.CREATE_PIPELINE, wire.GET_COMMAND_METADATA):
            for mt, body in self.script:
                self.send(sh, p, mt, body)

    def receive(self, req, sh, p):
        if p is not None and p.stopped and not p.out:
            return '<rsp:ReceiveResponse><rsp:CommandState State="http://schemas.microsoft.com/wbem/wsman/1/windows/shell/CommandState/Done"/></rsp:ReceiveResponse>'
        return super().receive(req, sh, p)


def connection(**kw):
    from pypsrp.wsman import WSMan
    a = dict(ssl=True, auth="basic", username="user", password="pass", encryption="auto")
    a.update(kw)
    return WSMan("srv", **a)


def make_session_key(public_key_b64, key):
    """Encrypt an AES key for the public key blob the client sent (MS-PSRP 2.2.2.4: SIMPLEBLOB, little-endian)."""
    import struct

    from cryptography.hazmat.primitives.asymmetric import padding, rsa
    blob = base64.b64decode(public_key_b64, validate=True)
    if len(blob) != 276 or blob[:16] != b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1\x00\x08\x00\x00":
        raise wire.WireError("malformed public key blob")
    e = struct.unpack("<I", blob[16:20])[0]
    n = int.from_bytes(blob[20:], "little")
    pub = rsa.RSAPublicNumbers(e, n).public_key()
    enc = pub.encrypt(key, padding.PKCS1v15())
    return base64.b64encode(b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00" + enc[::-1]).decode(), (e, n)


class FullServer(ScriptServer):
    """Also answers pool control requests, key exchanges and host prompts."""

    session_key = bytes(range(32))
    refuse = ()

    def __init__(self, script=None, **kw):
        super().__init__(script)
        self.control = []
        self.public_keys = []
        self.limits = {}
        for k, v in kw.items():
            setattr(self, k, v)

    def on_pool_other(self, sh, m):
        n = clixml.decode(m.body)
        d = clixml.plain(n)
        if m.type == wire.PUBLIC_KEY:
            b64, pk = make_session_key(d["PublicKey"], self.session_key)
            self.public_keys.append(pk)
            self.send(sh, None, wire.ENCRYPTED_SESSION_KEY, clixml.session_key(b64))
            return
        self.control.append((m.type, d))
        if m.type in (wire.SET_MAX, wire.SET_MIN, wire.RESET_RUNSPACE_STATE):
            self.send(sh, None, wire.AVAILABILITY, clixml.availability(m.type not in self.refuse, ci_of(d)))
        elif m.type == wire.GET_AVAILABLE:
            self.send(sh, None, wire.AVAILABILITY, clixml.availability(7, ci_of(d)))
        else:
            self.errors.append("unexpected pool message %#x" % m.type)

    def on_pipe_message(self, sh, p, m):
        if m.type == wire.CREATE_PIPELINE and commands(p.created) and (commands(p.created)[0]["Cmd"] or "").startswith("prompt"):
            self.send(sh, p, wire.PIPE_HOST_CALL, clixml.host_call(11, 11, "ReadLine", ""))
        elif m.type == wire.GET_COMMAND_METADATA:
            self.send(sh, p, wire.OUTPUT, METADATA_COUNT)
            self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(4))
        else:
            super().on_pipe_message(sh, p, m)

    def on_host_response(self, sh, m):
        for p in sh.pipes.values():
            if p.pid == m.pid:
                for mt, body in self.script:
                    self.send(sh, p, mt, body)


def ci_of(d):
    return d["ci"] if "ci" in d else d["CI"]


METADATA_COUNT = ('<Obj RefId="0"><TN RefId="0"><T>Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo</T><T>System.Management.Automation.PSCustomObject</T>'
                  '<T>System.Object</T></TN><MS><I32 N="Count">0</I32></MS></Obj>')


def commands(created, key="Cmds"):
    """The commands of a decoded CREATE_PIPELINE message as plain dictionaries."""
    return clixml.plain(created)["PowerShell"][key] if "PowerShell" in clixml.plain(created) else None


def statements(created):
    ps = clixml.plain(created)["PowerShell"]
    if ps.get("ExtraCmds"):
        return [s["Cmds"] for s in ps["ExtraCmds"]]
    return [ps["Cmds"]]
