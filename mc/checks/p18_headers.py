"""P18: every request carries what was configured, its own message id, and the right timeouts."""
import itertools
import os
import re
import xml.etree.ElementTree as ET

from mc import core, drive, env, server, wire
from mc.core import need, same

PROP = "P18"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of actions x timeouts x options x selectors x connection settings and of all short call histories (with failures in between) on the real client, each request parsed by an independent strict reader"
LEVEL_NOTE = "Complete over the listed value alphabets for every action method and over all histories of three calls over fourteen kinds of call; session-level calls are checked over pool, pipeline and process operations with and without a per-call timeout."
RULE = "one evaluation = one connection configuration and one history of calls; non-trivial when a request was sent"
ASSUMPTIONS = ["a per-call timeout of zero is not used (the documentation gives it no meaning)"]

S = "http://www.w3.org/2003/05/soap-envelope"
WSA = "http://schemas.xmlsoap.org/ws/2004/08/addressing"
WSMAN = "http://schemas.dmtf.org/wbem/wsman/1/wsman.xsd"
WSMV = "http://schemas.microsoft.com/wbem/wsman/1/wsman.xsd"
XML = "http://www.w3.org/XML/1998/namespace"
SHELL = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/"
TR = "http://schemas.xmlsoap.org/ws/2004/09/transfer/"
EN = "http://schemas.xmlsoap.org/ws/2004/09/enumeration/"
URI = {"command": SHELL + "Command", "connect": SHELL + "Connect", "create": TR + "Create", "disconnect": SHELL + "Disconnect", "delete": TR + "Delete", "enumerate": EN + "Enumerate", "get": TR + "Get", "pull": EN + "Pull",
       "put": TR + "Put", "receive": SHELL + "Receive", "reconnect": SHELL + "Reconnect", "send": SHELL + "Send", "signal": SHELL + "Signal"}
ACTIONS = list(URI)
OPTS = [None, [], [("A", "1", None)], [("B", "x & <y> \"q\"", {"MustComply": "true"}), ("A", "", None), ("B", 5, {})], [("\u00fc", "\u20ac\U0001f600", None), ("n", True, {"MustComply": "false", "x": "<"})]]
SELS = [None, [], [("ShellId", "5E11", None)], [("ShellId", "a&b<c>", None), ("Name", "", None), ("ShellId", "z", None)], [("\u00e9", "\u4e2d", None)]]
TIMEOUTS = [None, 1, 7, 20, 30, 3600]
RES = ["http://schemas.microsoft.com/powershell/Microsoft.PowerShell", "http://x/y?a=1&b=<2>", "urn:\u00e9"]
CONFIG = [{}, {"operation_timeout": 5, "connection_timeout": 11, "read_timeout": 13}, {"operation_timeout": 60, "read_timeout": 70}, {"locale": "de-DE"}, {"locale": "fr-FR", "data_locale": "ja-JP"}, {"data_locale": "nb-NO"},
          {"max_envelope_size": 512000}, {"max_envelope_size": 8192, "connection_timeout": 1}, {"path": "custom/wsman", "port": 80}, {"ssl": True}, {"operation_timeout": 1, "locale": "", "max_envelope_size": 153601}]


def c14n(e):
    return ET.canonicalize(ET.tostring(e, encoding="unicode"))


def resource(k):
    if k == 0:
        return None
    e = ET.Element("{http://t/}Req", {"A": "x & \"<", "{http://t/}b": "2"})
    ET.SubElement(e, "{http://u/}Child").text = "a\u00e9\U0001f600 <&> ]]> b"
    if k == 2:
        for i in range(3):
            ET.SubElement(e, "{%s}Stream" % "http://schemas.microsoft.com/wbem/wsman/1/windows/shell", Name="stdin").text = "QUJD" * i
    return e


def mkset(kind, spec):
    from pypsrp.wsman import OptionSet, SelectorSet
    if spec is None:
        return None
    s = (OptionSet if kind == "o" else SelectorSet)()
    for n, v, a in spec:
        if a is None:
            s.add_option(n, v)
        else:
            s.add_option(n, v, dict(a))
    return s


def parse(data):
    root = ET.fromstring(data)
    same(root.tag, "{%s}Envelope" % S, "root element")
    kids = [c.tag for c in root]
    same(kids, ["{%s}Header" % S, "{%s}Body" % S], "envelope parts")
    h, b = root
    names = [c.tag for c in h]
    need(len(set(names)) == len(names), "a header appears twice: %r" % (names,))

    def one(ns, n):
        e = h.find("{%s}%s" % (ns, n))
        need(e is not None, "header %s missing" % n)
        return e

    o = h.find("{%s}OptionSet" % WSMAN)
    s = h.find("{%s}SelectorSet" % WSMAN)
    return {
        "action": one(WSA, "Action").text, "resource": one(WSMAN, "ResourceURI").text, "to": one(WSA, "To").text, "mid": one(WSA, "MessageID").text, "session": one(WSMV, "SessionId").text,
        "size": one(WSMAN, "MaxEnvelopeSize").text, "op": one(WSMAN, "OperationTimeout").text, "locale": one(WSMAN, "Locale").get("{%s}lang" % XML), "data_locale": one(WSMV, "DataLocale").get("{%s}lang" % XML),
        "reply": one(WSA, "ReplyTo").findtext("{%s}Address" % WSA),
        "options": None if o is None else [(e.get("Name"), e.text or "", {k: v for k, v in e.attrib.items() if k != "Name"}) for e in o],
        "selectors": None if s is None else [(e.get("Name"), e.text or "", {k: v for k, v in e.attrib.items() if k != "Name"}) for e in s],
        "body": list(b),
    }


class Net:
    def __init__(self):
        self.seen = []
        self.mode = "ok"
        env.start(self, horizon=100)

    def __call__(self, adapter, request, kw):
        p = parse(request.body)
        self.seen.append((p, request, kw))
        return answer(self.mode, adapter, request, p["mid"])


def answer(mode, adapter, request, mid):
    import requests
    if mode == "timeout":
        raise requests.ReadTimeout("t")
    if mode == "refused":
        raise requests.ConnectionError("r")
    hdr = '<s:Envelope xmlns:s="%s" xmlns:wsa="%s"><s:Header><wsa:RelatesTo>%s</wsa:RelatesTo></s:Header><s:Body>' % (S, WSA, mid)
    if mode == "fault":
        return env.response(adapter, request, 500, (hdr + "<s:Fault><s:Code><s:Value>x</s:Value></s:Code></s:Fault></s:Body></s:Envelope>").encode())
    return env.response(adapter, request, 200, (hdr + "</s:Body></s:Envelope>").encode())


def uuid_ok(v):
    return v is not None and re.fullmatch(r"uuid:[0-9A-F]{8}-[0-9A-F]{4}-[0-9A-F]{4}-[0-9A-F]{4}-[0-9A-F]{12}", v)


class Client:
    """one connection and what is expected of it"""

    def __init__(self, net, cfg):
        from pypsrp.wsman import WSMan
        self.net = net
        kw = {"username": "u", "password": "p", "ssl": False, "auth": "basic", "encryption": "never"}
        kw.update(cfg)
        self.w = WSMan("srv", **kw)
        self.cfg = cfg
        self.op = cfg.get("operation_timeout", 20)
        self.net_timeout = (cfg.get("connection_timeout", 30), cfg.get("read_timeout", 30))
        self.size = cfg.get("max_envelope_size", 153600)
        self.locale = cfg.get("locale", "en-US")
        self.data_locale = cfg.get("data_locale", self.locale)
        self.url = "%s://srv:%s/%s" % ("https" if cfg.get("ssl") else "http", cfg.get("port", 5986 if cfg.get("ssl") else 5985), cfg.get("path", "wsman"))

    def call(self, action, res, rk, opts, sels, t, mode, mids):
        before = len(self.net.seen)
        self.net.mode = mode
        o, s, r = mkset("o", opts), mkset("s", sels), resource(rk)
        snap = (None if r is None else c14n(r), None if o is None else (str(o), c14n(o.pack())), None if s is None else (str(s), c14n(s.pack())))
        kw = {}
        if o is not None:
            kw["option_set"] = o
        if s is not None:
            kw["selector_set"] = s
        if t is not None:
            kw["timeout"] = t
        failed = None
        if action == "config":
            res, opts, sels, rk, t = "http://schemas.microsoft.com/wbem/wsman/1/config/x", None, None, 0, None
        try:
            if action == "config":
                self.w.get_server_config("config/x")
            elif action.startswith("http"):
                self.w.invoke(action, res, r, **kw)
            else:
                getattr(self.w, action)(res, r, **kw)
        except Exception as e:
            failed = e
            if isinstance(e, core.Violation):
                raise
        need((failed is None) == (mode == "ok"), "call with server answer %r gave %r" % (mode, failed), "outcome")
        same((None if r is None else c14n(r), None if o is None else (str(o), c14n(o.pack())), None if s is None else (str(s), c14n(s.pack()))), snap, "the caller's resource, option set and selector set after the call", "arguments altered")
        if action == "config":
            snap = (None, None, None)
        sent = self.net.seen[before:]
        need(sent, "nothing was sent")
        if not (mode == "timeout" and action == "receive"):
            same(len(sent), 1, "requests sent")
        want_uri = URI.get(action, TR + "Get" if action == "config" else action)
        for n, (p, req, k) in enumerate(sent):
            same(p["action"], want_uri, "action")
            same(p["resource"], res, "resource URI")
            same(p["to"], self.url, "To address")
            same(req.url.lower(), self.url.lower(), "URL requested")
            same(req.method, "POST", "HTTP method")
            same(p["size"], str(self.size), "envelope size")
            same(p["op"], "PT%dS" % (t or self.op), "operation timeout")
            same((p["locale"], p["data_locale"]), (self.locale, self.data_locale), "locales")
            same(p["reply"], "http://schemas.xmlsoap.org/ws/2004/08/addressing/role/anonymous", "ReplyTo")
            same(p["session"], "uuid:" + str(self.w.session_id).upper(), "session id")
            need(uuid_ok(p["mid"]), "message id %r" % p["mid"])
            need(uuid_ok(p["session"]), "session id %r" % p["session"])
            if n == 0:
                need(p["mid"] not in mids, "a message id is used twice")
                mids.append(p["mid"])
            else:
                same(p["mid"], mids[-1], "message id of a retry")
            need(p["mid"] != p["session"], "message id equals session id")
            norm = lambda x: None if x is None else [(a, str(b), {kk: str(v) for kk, v in (c or {}).items()}) for a, b, c in x]
            same(p["options"], norm(opts), "options")
            same(p["selectors"], norm(sels), "selectors")
            same([c14n(x) for x in p["body"]], [] if snap[0] is None else [snap[0]], "body content")
            to = k["timeout"]
            want = self.net_timeout if t is None else t + 2
            if not isinstance(to, tuple) and isinstance(want, tuple):
                to = (to, to)
            if isinstance(to, tuple) and not isinstance(want, tuple):
                want = (want, want)
            same(to, want, "network timeout")
            need(req.headers.get("Content-Type", "").replace(" ", "").lower() == "application/soap+xml;charset=utf-8", "content type %r" % req.headers.get("Content-Type"))
            same(int(req.headers["Content-Length"]), len(req.body), "content length")


HIST = [("receive", 0, None, "ok"), ("receive", 0, 3, "ok"), ("send", 1, 9, "ok"), ("send", 2, None, "fault"), ("get", 0, 4, "fault"), ("get", 0, None, "ok"), ("create", 1, None, "ok"), ("delete", 0, 1, "refused"), ("signal", 1, 5, "timeout"),
        ("receive", 1, 2, "timeout"), ("size", None, None, None), ("other", None, None, "ok"), ("locale", None, None, None), ("config", 0, None, "ok")]


def history(cfg, hist):
    net = Net()
    a = Client(net, cfg)
    b = Client(net, {"operation_timeout": 44, "read_timeout": 45})
    need(a.w.session_id != b.w.session_id, "two connections share a session id")
    mids = []
    for n, (act, rk, t, mode) in enumerate(hist):
        if act == "size":
            a.size = 200000 + n
            a.w.update_max_payload_size(a.size)
        elif act == "locale":
            a.w.operation_timeout = a.op = 33 + n
        elif act == "other":
            b.call("put", RES[0], 1, OPTS[2], SELS[2], 6, mode, mids)
        else:
            a.call(act, RES[n % 3], rk, OPTS[(n + (rk or 0)) % 5], SELS[(2 * n + (rk or 0)) % 5], t, mode, mids)
    return (len(mids), tuple(h[0] for h in hist)), bool(mids)


def single(cfg, action, res, rk, opts, sels, t, mode):
    net = Net()
    a = Client(net, cfg)
    mids = []
    a.call(action, res, rk, opts, sels, t, mode, mids)
    return (action, mode, t, len(net.seen)), True


# ------------------------------------------------------------------ sessions
def shared_set(t1, t2):
    """one option set and one selector set object used by several calls"""
    net = Net()
    a = Client(net, {})
    o, s, r = mkset("o", OPTS[3]), mkset("s", SELS[3]), resource(2)
    for n, (act, t) in enumerate((("send", t1), ("receive", t2), ("put", t1))):
        getattr(a.w, act)(RES[0], r, o, s, t)
        p = net.seen[-1][0]
        same(len(p["options"]), 3, "options on reuse")
        same(len(p["selectors"]), 3, "selectors on reuse")
        same([c14n(x) for x in p["body"]], [c14n(r)], "body on reuse")
        same(p["op"], "PT%dS" % (t or 20), "operation timeout on reuse")
    return (t1, t2), True




def cases(tier):
    out = [["single", a] for a in ACTIONS + ["config", "http://custom/Action"]]
    n = len(HIST)
    out += [["hist", i, j] for i in range(n) for j in range(n)] if tier == "thorough" else [["hist", i] for i in range(n)]
    out += [["config", i] for i in range(len(CONFIG))] + [["shared"]] + [["session", k] for k in ("pool", "process")]
    return out


def run_case(case, rep):
    big = os.environ.get("VERIF_TIER") == "thorough"
    kind = case[0]

    def one(fn, *args):
        rep.execute(lambda: fn(*args), case=case, choices=lambda: repr(args))

    if kind == "single":
        a = case[1]
        for rk, o, s in itertools.product((0, 1, 2), range(5), range(5)):
            if not big and (rk + o + s) % 2 and rk != 2:
                continue
            for t in (TIMEOUTS if big else (None, TIMEOUTS[1 + (rk + o + 2 * s) % 5])):
                one(single, {}, a, RES[(o + s) % 3], rk, OPTS[o], SELS[s], t, "ok")
        for t in TIMEOUTS:
            for mode in ("ok", "fault", "timeout", "refused"):
                for ci in (0, 1):
                    one(single, CONFIG[ci], a, RES[0], 1, OPTS[3], SELS[3], t, mode)
    elif kind == "config":
        for a in ACTIONS + ["config"]:
            for t in TIMEOUTS:
                for k in (0, 2):
                    one(single, CONFIG[case[1]], a, RES[k % 3], k, OPTS[2], SELS[2], t, "ok")
    elif kind == "hist":
        head = [HIST[i] for i in case[1:]]
        for tail in itertools.product(HIST, repeat=2):
            one(history, CONFIG[1], head + list(tail))
    elif kind == "shared":
        for t1, t2 in itertools.product(TIMEOUTS, repeat=2):
            one(shared_set, t1, t2)
    elif kind == "session":
        for cfg in CONFIG[:8]:
            for t in TIMEOUTS:
                one(pool_session if case[1] == "pool" else process_session, cfg, t)
    rep.sample({"case": case})


def check_session(s, cfg, timeouts):
    """timeouts: list aligned with the requests made: the per-call timeout in force, or None"""
    same(len(timeouts), len(s.log), "requests seen")
    mids = [r.message_id for r in s.log]
    need(len(set(mids)) == len(mids), "a message id is used twice")
    same(len({r.session_id for r in s.log}), 1, "session ids used by one connection")
    for r, t in zip(s.log, timeouts):
        p = parse(r.data)
        same(p["op"], "PT%dS" % (t or cfg.get("operation_timeout", 20)), "operation timeout of %s" % r.action)
        size = cfg.get("max_envelope_size", 153600)
        # a pool that left the size at its default raises it to 500 KiB once the server says it is recent enough
        need(int(p["size"]) == size or (size == 153600 and int(p["size"]) == 512000 and r.action != "Create"), "envelope size of %s is %s, configured %s" % (r.action, p["size"], size), "envelope size")
        same(p["locale"], cfg.get("locale", "en-US"), "locale of %s" % r.action)
        same(p["data_locale"], cfg.get("data_locale", cfg.get("locale", "en-US")), "data locale of %s" % r.action)
        want = (cfg.get("connection_timeout", 30), cfg.get("read_timeout", 30)) if t is None else (t + 2, t + 2)
        got = r.timeout if isinstance(r.timeout, tuple) else (r.timeout, r.timeout)
        same(got, want, "network timeout of %s" % r.action)
        if r.action not in ("Create", "Enumerate"):
            same([x[0] for x in p["selectors"] or []], ["ShellId"], "selectors of %s" % r.action)
        if r.action == "Receive":
            same(p["options"], [("WSMAN_CMDSHELL_OPTION_KEEPALIVE", "True", {})], "options of Receive")


def pool_session(cfg, t):
    from pypsrp.powershell import PowerShell
    s = server.FullServer([])
    s.install(horizon=60)
    want = []

    def mark(n0, tt):
        want.extend([tt] * (len(s.log) - len(want)))

    pool = drive.pool(conn=server.connection(**cfg))
    pool.open()
    mark(0, None)
    for tt in (None, t):
        ps = PowerShell(pool)
        ps.add_script("x")
        ps.begin_invoke()
        mark(0, None)
        ps.poll_invoke(timeout=tt)
        mark(0, tt)
        ps.poll_invoke()
        mark(0, None)
        need(pool.is_alive(timeout=tt), "pool not alive")
        mark(0, tt)
        if ps.state == 1:
            ps.stop()
        mark(0, None)
    pool.close()
    mark(0, None)
    check_session(s, cfg, want)
    return (t, len(s.log), tuple(r.action for r in s.log)), True


def process_session(cfg, t):
    from pypsrp.shell import Process, SignalCode, WinRS
    s = WinRSServer()
    s.install(horizon=60)
    want = []

    def mark(tt):
        want.extend([tt] * (len(s.log) - len(want)))

    with WinRS(server.connection(**cfg)) as sh:
        mark(None)
        for tt in (None, t):
            p = Process(sh, "cmd", ["a"])
            p.begin_invoke()
            p.send(b"in")
            mark(None)
            p.poll_invoke(timeout=tt)
            mark(tt)
            p.poll_invoke()
            p.signal(SignalCode.CTRL_C)
            mark(None)
    mark(None)
    check_session(s, cfg, want)
    return (t, len(s.log)), True


class WinRSServer(server.Server):
    """the plain command shell: answers every request emptily"""

    def on_Create(self, req):
        return '<rsp:Shell><rsp:ShellId>11111111-1111-4111-8111-111111111111</rsp:ShellId></rsp:Shell><wst:ResourceCreated xmlns:wst="http://schemas.xmlsoap.org/ws/2004/09/transfer"><wsa:ReferenceParameters><wsman:SelectorSet><wsman:Selector Name="ShellId">11111111-1111-4111-8111-111111111111</wsman:Selector></wsman:SelectorSet></wsa:ReferenceParameters></wst:ResourceCreated>'

    def on_Command(self, req):
        return "<rsp:CommandResponse><rsp:CommandId>22222222-2222-4222-8222-222222222222</rsp:CommandId></rsp:CommandResponse>"

    def on_Send(self, req):
        return "<rsp:SendResponse/>"

    def on_Signal(self, req):
        return "<rsp:SignalResponse/>"

    def on_Delete(self, req):
        return ""

    def on_Receive(self, req):
        return '<rsp:ReceiveResponse><rsp:CommandState CommandId="22222222-2222-4222-8222-222222222222" State="http://schemas.microsoft.com/wbem/wsman/1/windows/shell/CommandState/Running"/></rsp:ReceiveResponse>'
