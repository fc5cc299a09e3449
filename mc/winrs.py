"""A reference command shell (WinRS) server: strict about what it is sent, scripted in what it answers."""
import base64
import binascii
import collections

from . import server
from .clixml import xml
from .server import NS, Fault

STATE = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/CommandState/"
CMD = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/cmd"
RSP = "{%s}" % NS["rsp"]


class Command:
    def __init__(self, shell, cid):
        self.shell, self.id = shell, cid
        self.executable = None
        self.arguments = []
        self.skip_shell = None
        self.inputs = []          # (stream, bytes, end)
        self.signals = []
        self.script = collections.deque()
        self.done = False


class CmdShell:
    def __init__(self, sid, uri):
        self.id, self.uri = sid, uri
        self.fields = {}
        self.env = None
        self.options = []
        self.commands = {}
        self.deleted = 0
        self.extra = []


class CmdServer(server.Server):
    """`script(command)` -> the responses a new command's Receive requests get, in order: "timeout" or
    (streams [(name, bytes or None)], state suffix or None, exit code or None)"""
    idle = None          # what the server replies as IdleTimeOut, None: omit it
    reply_uri = False
    more = ()            # selectors besides ShellId that the server gives a new shell: (before?, name, value)
    details = None       # further (tag, text) of the new shell in the reply

    def __init__(self, script=None, **kw):
        super().__init__()
        self.script = script or (lambda c: [([], "Done", 0)])
        self.cshells = {}
        self.order = []
        for k, v in kw.items():
            setattr(self, k, v)

    def bad(self, req, what):
        self.errors.append("%s: %s" % (req.action, what))

    def shell_for(self, req):
        sh = self.cshells.get(req.selectors.get("ShellId"))
        if sh is None or sh.deleted:
            self.bad(req, "no such shell %r" % (req.selectors,))
            raise Fault(server.UNEXPECTED_SELECTORS)
        if req.selectors != dict([(n, v) for _, n, v in self.more] + [("ShellId", sh.id)]):
            self.bad(req, "selectors %r" % (req.selectors,))
        if req.resource_uri != sh.uri:
            self.bad(req, "resource %r instead of %r" % (req.resource_uri, sh.uri))
        return sh

    def only(self, req, tag):
        kids = list(req.body)
        if len(kids) != 1 or kids[0].tag != RSP + tag:
            self.bad(req, "body holds %r" % [k.tag for k in kids])
            raise Fault(server.ACCESS_DENIED)
        return kids[0]

    def on_Create(self, req):
        el = self.only(req, "Shell")
        self.shell_n += 1
        sid = el.attrib.get("ShellId") or "5E11%04d-0000-4000-8000-000000000000" % self.shell_n
        if sid in self.cshells and not self.cshells[sid].deleted:
            self.bad(req, "shell exists already")
            raise Fault(server.ACCESS_DENIED)
        sh = CmdShell(sid, req.resource_uri)
        sh.asked_id = el.attrib.get("ShellId")
        sh.options = req.options
        for c in el:
            tag = c.tag.replace(RSP, "")
            if tag == "Environment":
                sh.env = [(v.attrib.get("Name"), v.text or "") for v in c]
            elif c.tag.startswith(RSP):
                if tag in sh.fields:
                    self.bad(req, "%s twice" % tag)
                sh.fields[tag] = c.text or ""
            else:
                sh.extra.append((c.tag, c.text))
        if req.selectors:
            self.bad(req, "selectors on Create")
        self.cshells[sid] = sh
        self.order.append(sh)
        opt = ("<rsp:IdleTimeOut>%s</rsp:IdleTimeOut>" % self.idle) if self.idle else ""
        uri = ("<rsp:ResourceUri>%s</rsp:ResourceUri>" % xml(sh.uri)) if self.reply_uri else ""
        sels = ["", ""]
        for before, n, v in self.more:
            sels[not before] += '<wsman:Selector Name="%s">%s</wsman:Selector>' % (xml(n), xml(v))
        sel = sels[0] + '<wsman:Selector Name="ShellId">%s</wsman:Selector>' % xml(sid) + sels[1]
        opt += "".join("<rsp:%s>%s</rsp:%s>" % (t, xml(x), t) for t, x in self.details or ())
        owner = "" if self.details is not None else "<rsp:Owner>o</rsp:Owner>"
        return ('<wst:ResourceCreated><wsa:Address>http://srv</wsa:Address><wsa:ReferenceParameters><wsman:ResourceURI>%s</wsman:ResourceURI><wsman:SelectorSet>%s</wsman:SelectorSet></wsa:ReferenceParameters></wst:ResourceCreated>'
                '<rsp:Shell><rsp:ShellId>%s</rsp:ShellId>%s%s%s</rsp:Shell>' % (xml(sh.uri), sel, xml(sid), uri, owner, opt))

    def on_Command(self, req):
        sh = self.shell_for(req)
        el = self.only(req, "CommandLine")
        self.cmd_n += 1
        c = Command(sh, el.attrib.get("CommandId") or "C0%06d-0000-4000-8000-00000000000%d" % (self.cmd_n, self.cmd_n % 10))
        opts = dict((n, v) for n, v, _ in req.options)
        c.skip_shell = str(opts.get("WINRS_SKIP_CMD_SHELL")).lower()
        for k in el:
            if k.tag == RSP + "Command" and c.executable is None:
                c.executable = k.text or ""
            elif k.tag == RSP + "Arguments" and c.executable is not None:
                c.arguments.append(k.text or "")
            else:
                self.bad(req, "unexpected %s" % k.tag)
        c.script = collections.deque(self.script(c))
        sh.commands[c.id] = c
        return "<rsp:CommandResponse><rsp:CommandId>%s</rsp:CommandId></rsp:CommandResponse>" % c.id

    def command_for(self, req, sh, cid):
        c = sh.commands.get(cid)
        if c is None:
            self.bad(req, "no command %r" % cid)
            raise Fault(server.ACCESS_DENIED)
        return c

    def on_Receive(self, req):
        sh = self.shell_for(req)
        d = self.only(req, "Receive").find("rsp:DesiredStream", NS)
        if d is None or set((d.text or "").split()) != {"stdout", "stderr"}:
            self.bad(req, "streams %r" % (d is not None and d.text))
        c = self.command_for(req, sh, d.attrib.get("CommandId"))
        if not c.script:
            self.bad(req, "polled after the end")
            raise Fault(server.ACCESS_DENIED)
        r = c.script.popleft()
        if r == "timeout":
            raise Fault(server.TIMEDOUT)
        if isinstance(r, Exception):
            raise r
        streams, state, rc = r
        out = []
        for name, data in streams:
            if data is None:
                out.append('<rsp:Stream Name="%s" CommandId="%s" End="true"/>' % (name, c.id))
            else:
                out.append('<rsp:Stream Name="%s" CommandId="%s">%s</rsp:Stream>' % (name, c.id, base64.b64encode(data).decode()))
        if state is not None:
            c.done = state == "Done"
            code = "" if rc is None else "<rsp:ExitCode>%s</rsp:ExitCode>" % rc
            out.append('<rsp:CommandState CommandId="%s" State="%s%s">%s</rsp:CommandState>' % (c.id, STATE, state, code))
        return "<rsp:ReceiveResponse>%s</rsp:ReceiveResponse>" % "".join(out)

    def on_Send(self, req):
        sh = self.shell_for(req)
        for s in self.only(req, "Send"):
            c = self.command_for(req, sh, s.attrib.get("CommandId"))
            try:
                data = base64.b64decode("".join((s.text or "").split()), validate=True)
            except binascii.Error as e:
                self.bad(req, "not base64: %s" % e)
                continue
            if c.inputs and c.inputs[-1][2]:
                self.bad(req, "input after the end")
            c.inputs.append((s.attrib.get("Name"), data, str(s.attrib.get("End", "false")).lower() in ("true", "1")))
        return "<rsp:SendResponse/>"

    def on_Signal(self, req):
        sh = self.shell_for(req)
        el = self.only(req, "Signal")
        c = self.command_for(req, sh, el.attrib.get("CommandId"))
        code = el.find("rsp:Code", NS)
        c.signals.append(code.text if code is not None else None)
        return "<rsp:SignalResponse/>"

    def on_Delete(self, req):
        sh = self.cshells.get(req.selectors.get("ShellId"))
        if sh is None:
            self.bad(req, "no such shell")
            raise Fault(server.UNEXPECTED_SELECTORS)
        if req.resource_uri != sh.uri:
            self.bad(req, "resource %r instead of %r" % (req.resource_uri, sh.uri))
        sh.deleted += 1
        if len(req.body):
            self.bad(req, "body on Delete")
        return ""
