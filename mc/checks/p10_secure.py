"""P10: secure strings round-trip under the negotiated key and never travel in clear."""
import base64
import itertools
import os
import uuid

from mc import clixml, core, drive, server, wire
from mc.core import need, same
from mc.env import W

PROP = "P10"
LEVEL = "exploration"
TECHNIQUE = "stateless exploration of the key exchange against every combination of server traffic, delays, faults and retries, plus exhaustive enumeration of secure texts x the places they can travel, decrypted by an independent server"
LEVEL_NOTE = "Complete for all texts up to length 3 over the alphabet, every length up to 40 and every sink and source; exchange schedules complete within the deviation bound."
RULE = "one evaluation = one session: a key exchange schedule, or one secure text sent or received at one place; non-trivial when the exchange is disturbed or the text is not plain ASCII of one block"
ASSUMPTIONS = ["the server issues an AES-256 key encrypted for the public key it received, as the protocol says"]

ALPHA = ["a", "\u00e9", "\U0001F600", "\x00", "_x000A_", "<"]
KEYS = [bytes(range(32)), b"\x00" * 32, b"\xff" * 32, b"\x00" * 31 + b"\x01", bytes(range(255, 223, -1))]


def crypt(key, data, enc):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    c = Cipher(algorithms.AES(key), modes.CBC(b"\x00" * 16))
    if enc:
        n = 16 - len(data) % 16
        e = c.encryptor()
        return e.update(data + bytes([n]) * n) + e.finalize()
    d = c.decryptor()
    data = d.update(data) + d.finalize()
    need(data and 1 <= data[-1] <= 16 and data.endswith(bytes([data[-1]]) * data[-1]), "secure string padding is not PKCS7", "secure string does not decrypt")
    return data[:-data[-1]]


def seal(key, text):
    return base64.b64encode(crypt(key, text.encode("utf-16-le", "surrogatepass"), True)).decode()


def unseal(key, b64):
    raw = base64.b64decode(b64, validate=True)
    need(len(raw) % 16 == 0 and raw, "secure string is not whole AES blocks", "secure string does not decrypt")
    return crypt(key, raw, False).decode("utf-16-le", "surrogatepass")


def secrets(n, out):
    """All secure strings of a decoded document, in document order."""
    if isinstance(n, clixml.Node):
        for d in (n.props, n.ms):
            for v in (d or {}).values():
                secrets(v, out)
        if n.value is not None:
            secrets(n.value, out)
        if n.cont is not None:
            for v in n.cont[1]:
                for x in v if n.cont[0] == "DCT" else (v,):
                    secrets(x, out)
    elif n[0] == "SS":
        out.append(n[1])
    return out


def no_clear(s, text):
    """The text is in none of the messages sent, in any spelling."""
    if len(text) < 4:
        return
    forms = [text.encode("utf-8", "surrogatepass"), text.encode("utf-16-le", "surrogatepass"), text.encode("utf-16-be", "surrogatepass"),
             clixml.escape(text).encode("utf-8"), base64.b64encode(text.encode("utf-8", "surrogatepass")), base64.b64encode(text.encode("utf-16-le", "surrogatepass"))]
    for r in s.log:
        blobs = [r.data, r.info.get("data", b"")]
        for e in r.body.iter():
            if e.text and len(e.text) > 40:
                try:
                    blobs.append(base64.b64decode(e.text))
                except ValueError:
                    pass
        for b in blobs:
            for f in forms:
                need(f not in b, "secure text in clear in a %s request" % r.action, "secure text travels in clear")


# ---------------------------------------------------------------- exchange schedules

class Srv(server.FullServer):
    """Key answers are scheduled by the check."""

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        self.waiting = None
        self.polls = 0
        self.keys_asked = 0
        self.events = 0
        self.plan = {}
        self.send_fault = 0

    def before(self, req):
        if req.action == "Send" and self.send_fault:
            self.send_fault -= 1
            raise server.Fault(server.ACCESS_DENIED, "send failed")

    def traffic(self, sh):
        k = self.ctx.pick(["none", "event", "foreign", "private", "host", "request"], "traffic")
        if k == "event":
            self.events += 1
            self.send(sh, None, wire.USER_EVENT, clixml.user_event(self.events))
        elif k == "foreign":
            self.send(sh, None, wire.AVAILABILITY, clixml.availability(True, 9999))
        elif k == "private":
            self.send(sh, None, wire.APP_PRIVATE, clixml.app_private())
        elif k == "host":
            self.send(sh, None, wire.POOL_HOST_CALL, clixml.host_call(3, 11, "ReadLine", ""))
        elif k == "request":
            self.send(sh, None, wire.PUBLIC_KEY_REQUEST, '<S></S>')
        return k

    def on_pool_other(self, sh, m):
        if m.type == wire.PUBLIC_KEY:
            self.keys_asked += 1
            d = clixml.plain(clixml.decode(m.body))
            b64, pk = server.make_session_key(d["PublicKey"], self.session_key)
            self.public_keys.append(pk)
            self.traffic(sh)
            delay = self.ctx.pick([0, 1, 3], "delay")
            self.plan = dict(delay=delay, fault=self.ctx.pick(["no", "fault"], "receive fault"))
            self.waiting = (sh, b64)
            return
        super().on_pool_other(sh, m)

    def receive(self, req, sh, p):
        if p is None and self.waiting:
            if self.plan["fault"] == "fault":
                self.plan["fault"] = "done"
                raise server.Fault(server.ACCESS_DENIED, "receive failed")
            if self.plan["delay"] > 0 and not sh.out:
                self.plan["delay"] -= 1
                W.now += 20
                self.polls += 1
                raise server.Fault(server.TIMEDOUT, "timed out")
            if self.plan["delay"] <= 0:
                sh0, b64 = self.waiting
                self.waiting = None
                self.send(sh0, None, wire.ENCRYPTED_SESSION_KEY, clixml.session_key(b64), frag_size=self.ctx.pick([32000, 100], "cut"))
                self.traffic(sh0)
        return super().receive(req, sh, p)

    def take(self, req, q):
        out = list(q)
        q.clear()
        return out


def exchange(ctx, timeout_ms, ops):
    from pypsrp.exceptions import InvalidPSRPOperation, SerializationError, WSManFaultError
    from pypsrp.powershell import PowerShell
    from pypsrp.serializer import TaggedValue
    s = Srv(ctx)
    s.session_key = ctx.pick(KEYS, "key")
    s.install(horizon=200)
    host = drive.host(read_line="answer")
    p = drive.pool(host=host, session_key_timeout_ms=timeout_ms)
    p.open()
    exchanged = False
    text = "se\u00e9cret \U0001F600"
    for op in ops:
        n, now, asked, ft = len(s.log), W.now, s.keys_asked, s.plan.get("fault")
        if op == "exchange":
            s.send_fault = ctx.choose(2, "send fault") if not s.keys_asked else 0
            sf = s.send_fault
            try:
                p.exchange_keys()
                got = "ok"
            except InvalidPSRPOperation as e:
                got = "timeout"
            except WSManFaultError as e:
                got = "fault"
            el = (W.now - now) * 1000
            if exchanged:
                same((got, len(s.log) - n), ("ok", 0), "a second exchange")
            elif sf:
                same(got, "fault", "exchange whose send failed")
                same(s.keys_asked, asked, "keys received")
            elif got == "fault":
                need(s.plan["fault"] == "done" and ft != "done", "the exchange failed without a failure")
            elif got == "timeout":
                need(el >= timeout_ms, "timed out after %d of %d ms" % (el, timeout_ms), "key exchange times out early")
                need(el <= timeout_ms + 20000, "timed out after %d ms" % el, "key exchange times out late")
            else:
                need(s.waiting is None, "exchange returned before the key arrived")
                need(el <= timeout_ms + 20000, "returned after %d ms" % el, "key exchange times out late")
                exchanged = True
            need(s.keys_asked <= 1, "public key sent %d times" % s.keys_asked, "more than one key exchange")
        elif op == "avail":
            try:
                same(p.get_available_runspaces(), 7, "available runspaces")
            except WSManFaultError:
                need(s.plan.get("fault") == "done" and ft != "done", "query failed without a failure")
            if s.keys_asked and s.waiting is None:
                exchanged = True  # the key arrived with other traffic
        elif op == "use":
            ps = PowerShell(p)
            ps.add_cmdlet("C").add_argument(TaggedValue("SS", text))
            try:
                ps.invoke()
                got = "ok"
            except SerializationError:
                got = "refused"
            if got == "refused":
                need(not exchanged, "secure string refused after the exchange", "secure string refused after the exchange")
                same(len(s.log), n, "requests of a refused secure string")
            else:
                need(s.keys_asked and s.waiting is None, "secure string sent without a key")
                pipe = list(list(s.shells.values())[0].pipes.values())[-1]
                ss = secrets(pipe.created, [])
                same([unseal(s.session_key, x) for x in ss], [text], "secure string at the server", "secure string does not decrypt to its text")
                exchanged = True
    same(s.errors, [], "server errors")
    same(int(p.state), 2, "pool state")
    no_clear(s, text)
    # finish: whatever happened, the exchange can be completed, once
    s.plan["delay"] = 0
    s.plan["fault"] = "done"
    done, s.ctx = s.ctx, core.Ctx()
    if s.keys_asked or True:
        p.exchange_keys()
    same(s.keys_asked, 1, "public keys sent in the end", "more than one key exchange")
    same(p.get_available_runspaces(), 7, "the pool afterwards")
    same(len(p.user_events), s.events, "events around the exchange", "other traffic lost around the key exchange")
    ps = PowerShell(p)
    ps.add_cmdlet("C").add_argument(TaggedValue("SS", text))
    s.script = [(wire.OUTPUT, "<SS>%s</SS>" % seal(s.session_key, text)), (wire.PIPE_STATE, clixml.pipeline_state(4))]
    out = ps.invoke()
    same(list(out), [text], "secure string received", "received secure string is not the original")
    pipe = list(list(s.shells.values())[0].pipes.values())[-1]
    same([unseal(s.session_key, x) for x in secrets(pipe.created, [])], [text], "secure string at the server", "secure string does not decrypt to its text")
    no_clear(s, text)
    return (timeout_ms, tuple(ops), tuple(ctx.choices)), any(ctx.choices) or len(ops) > 1


class Starts(server.FullServer):
    """The server asks for the public key by itself, after the n-th control answer."""
    at = ()

    def on_pool_other(self, sh, m):
        if m.type == wire.PUBLIC_KEY:
            self.public_keys.append(None)
            b64, self.public_keys[-1] = server.make_session_key(clixml.plain(clixml.decode(m.body))["PublicKey"], self.session_key)
            self.order(sh, wire.ENCRYPTED_SESSION_KEY, clixml.session_key(b64))
            return
        n = len(self.control)
        if "before%d" % n in self.at:
            self.send(sh, None, wire.PUBLIC_KEY_REQUEST, "<S></S>")
        super().on_pool_other(sh, m)
        if "after%d" % n in self.at:
            self.send(sh, None, wire.PUBLIC_KEY_REQUEST, "<S></S>")

    def order(self, sh, mt, body):
        self.send(sh, None, mt, body)

    def take(self, req, q):
        if self.together:
            out = list(q)
            q.clear()
            return out
        return [q.popleft()]


def started(at, together, client):
    """a key exchange the server starts; the client may start one as well"""
    from pypsrp.powershell import PowerShell
    from pypsrp.serializer import TaggedValue
    s = Starts()
    s.at, s.together = at, together
    s.install(horizon=200)
    p = drive.pool(host=drive.host(read_line="answer"))
    p.open()
    for i in range(3):
        if client == i:
            p.exchange_keys()
        same(p.get_available_runspaces(), 7, "available runspaces")
    # whatever is still queued for the pool reaches the client with the next answers
    for i in range(4):
        same(p.get_available_runspaces(), 7, "available runspaces")
    same(len(s.public_keys), 1, "public keys sent after the server asked for one", "server-started exchange")
    text = "p\u00e4ss"
    ps = PowerShell(p)
    ps.add_cmdlet("C").add_argument(TaggedValue("SS", text))
    s.script = [(wire.OUTPUT, "<SS>%s</SS>" % seal(s.session_key, text)), (wire.PIPE_STATE, clixml.pipeline_state(4))]
    same(list(ps.invoke()), [text], "secure string received", "received secure string is not the original")
    pipe = list(list(s.shells.values())[0].pipes.values())[-1]
    same([unseal(s.session_key, x) for x in secrets(pipe.created, [])], [text], "secure string at the server", "secure string does not decrypt to its text")
    p.exchange_keys()
    same((len(s.public_keys), s.errors), (1, []), "public keys sent in the end", "more than one key exchange")
    no_clear(s, text)
    return ("started", at, together, client), True


# ---------------------------------------------------------------- sinks and sources

def texts(tier):
    out = [""]
    for n in (1, 2, 3):
        out += ["".join(x) for x in itertools.product(ALPHA, repeat=n)]
    out += ["p" * n for n in range(1, 41)] + ["\U0001F600" * n for n in range(1, 13)] + ["x" * 5000, "\ufeffbom", "tail\x00\x00", " \t\r\n"]
    return out


SINKS = ["arg", "param", "cred", "nested-list", "nested-dict", "nested-obj", "input", "input-cred", "host", "serialize", "meta"]


def put(sink, p, text):
    """Send the text through one sink; returns nothing, the server has it afterwards."""
    from pypsrp.complex_objects import GenericComplexObject, ObjectMeta, PSCredential
    from pypsrp.powershell import PowerShell
    from pypsrp.serializer import TaggedValue
    ps = PowerShell(p)
    ps.add_cmdlet("C")
    ss = TaggedValue("SS", text)
    inp = None
    if sink == "arg":
        ps.add_argument(ss)
    elif sink == "param":
        ps.add_parameter("P", ss)
    elif sink == "cred":
        ps.add_parameter("Credential", PSCredential(username="u", password=text))
    elif sink == "nested-list":
        ps.add_argument([1, [ss], "x"])
    elif sink == "nested-dict":
        ps.add_argument({"k": {"z": ss}})
    elif sink == "nested-obj":
        o = GenericComplexObject()
        o.extended_properties["A"] = ss
        o.to_string = "obj"
        ps.add_argument(o)
    elif sink == "input":
        inp = ["clear", ss, 1]
    elif sink == "input-cred":
        inp = [PSCredential(username="u", password=text)]
    elif sink == "serialize":
        ps.add_argument(p.serialize(ss))
    elif sink == "meta":
        ps.add_argument(p.serialize(text, ObjectMeta("SS")))
    ps.invoke(inp)
    return ps


class SinkServer(server.FullServer):
    def on_pipe_message(self, sh, p, m):
        if m.type == wire.CREATE_PIPELINE and getattr(self, "ask", False):
            self.send(sh, p, wire.PIPE_HOST_CALL, clixml.host_call(1, 12, "ReadLineAsSecureString", ""))
        super().on_pipe_message(sh, p, m)


def sink(kind, key, text):
    from pypsrp.complex_objects import ObjectMeta
    s = SinkServer(session_key=key)
    s.install()
    h = drive.host()
    h.ui.ReadLineAsSecureString = lambda runspace, pipeline: runspace.serialize(text, ObjectMeta("SS"))
    p = drive.pool(host=h)
    p.open()
    p.exchange_keys()
    s.ask = kind == "host"
    put(kind, p, text)
    sh = list(s.shells.values())[0]
    pipe = list(sh.pipes.values())[0]
    docs = [pipe.created] + [clixml.decode(b) for b in pipe.inputs] + [clixml.decode(m.body) for m in sh.host_responses]
    ss = [x for d in docs for x in secrets(d, [])]
    same([unseal(key, x) for x in ss], [text], "secure strings at the server through %s" % kind, "secure string does not decrypt to its text")
    same(s.errors, [], "server errors")
    no_clear(s, text)
    return (kind, key[:2], text), True


def unkeyed(kind):
    """Before the exchange the same send fails and nothing leaves."""
    from pypsrp.exceptions import SerializationError
    text = "TopSecretText"
    s = SinkServer()
    s.install()
    p = drive.pool(host=drive.host())
    p.open()
    n = len(s.log)
    try:
        put(kind, p, text)
        raise core.Violation("secure string accepted before the key exchange (%s)" % kind, "secure string accepted before the key exchange")
    except SerializationError:
        pass
    new = s.log[n:]
    if kind.startswith("input"):
        pipe = list(list(s.shells.values())[0].pipes.values())[0]
        got = [clixml.plain(clixml.decode(b)) for b in pipe.inputs]
        need(got in ([], ["clear"]) if kind == "input" else got == [], "input sent before the refusal: %r" % got, "data leaves with a refused secure string")
    else:
        same([r.action for r in new], [], "requests of a refused secure string", "data leaves with a refused secure string")
    no_clear(s, text)
    same(p.get_available_runspaces(), 7, "the pool afterwards")
    p.exchange_keys()
    same(len(s.public_keys), 1, "exchanges")
    n = len(s.log)
    put(kind, p, text)
    sh = list(s.shells.values())[0]
    pipe = list(sh.pipes.values())[-1]
    ss = [x for d in [pipe.created] + [clixml.decode(b) for b in pipe.inputs] for x in secrets(d, [])]
    same([unseal(s.session_key, x) for x in ss], [text], "secure string at the server", "secure string does not decrypt to its text")
    no_clear(s, text)
    return (kind,), True


SOURCES = ["output", "list", "dict", "prop", "cred", "host", "error", "verbose-prop"]


def source(kind, key, text):
    from pypsrp.powershell import PowerShell
    s = server.FullServer(session_key=key)
    b = "<SS%s>%s</SS>"
    c = seal(key, text)
    calls = []
    if kind == "output":
        body = b % ("", c)
    elif kind == "list":
        body = '<Obj RefId="0"><TN RefId="0"><T>System.Collections.ArrayList</T><T>System.Object</T></TN><LST><S>a</S>%s%s</LST></Obj>' % (b % ("", c), b % ("", c))
    elif kind == "dict":
        body = '<Obj RefId="0"><TN RefId="0"><T>System.Collections.Hashtable</T><T>System.Object</T></TN><DCT><En><S N="Key">k</S>%s</En></DCT></Obj>' % (b % (' N="Value"', c))
    elif kind == "prop":
        body = '<Obj RefId="0"><MS>%s</MS></Obj>' % (b % (' N="P"', c))
    elif kind == "cred":
        body = ('<Obj RefId="0"><TN RefId="0"><T>System.Management.Automation.PSCredential</T><T>System.Object</T></TN><ToString>System.Management.Automation.PSCredential</ToString>'
                '<Props><S N="UserName">u</S>%s</Props></Obj>' % (b % (' N="Password"', c)))
    elif kind == "error":
        body = "<S>x</S>"
    else:
        body = "<S>x</S>"
    s.script = [(wire.OUTPUT, body)]
    if kind == "host":
        s.script.insert(0, (wire.PIPE_HOST_CALL, clixml.host_call(5, 16, "WriteLine2", b % ("", c))))
    s.script.append((wire.PIPE_STATE, clixml.pipeline_state(4)))
    s.install()
    h = drive.host()
    h.ui.WriteLine2 = lambda rs, pl, v: calls.append(v)
    p = drive.pool(host=h)
    p.open()
    p.exchange_keys()
    ps = PowerShell(p)
    ps.add_script("x")
    o = ps.invoke()[0]
    got = {"output": lambda: o, "list": lambda: o[1] if o[1] == o[2] else (o[1], o[2]), "dict": lambda: o["k"], "prop": lambda: o.extended_properties["P"],
           "cred": lambda: o.password, "host": lambda: calls[0]}[kind]()
    same((type(got).__name__, got), ("str", text), "secure string received as %s" % kind, "received secure string is not the original")
    return (kind, key[:2], text), True


def pools():
    """Two pools on one connection exchange and use their own keys; reset and reconnecting keep them."""
    from pypsrp.powershell import PowerShell
    from pypsrp.serializer import TaggedValue
    s = server.FullServer()
    s.install()
    conn = server.connection()
    a, b = drive.pool(conn=conn), drive.pool(conn=conn)
    a.open()
    b.open()
    s.session_key = KEYS[0]
    a.exchange_keys()
    s.session_key = KEYS[4]
    b.exchange_keys()
    a.exchange_keys()
    same(len(s.public_keys), 2, "public keys published by two pools")
    need(s.public_keys[0] != s.public_keys[1], "two pools published the same public key")
    a.reset_runspace_state()
    b.disconnect()
    b.connect()
    for p, key in ((a, KEYS[0]), (b, KEYS[4]), (a, KEYS[0])):
        s.script = [(wire.OUTPUT, "<SS>%s</SS>" % seal(key, "back")), (wire.PIPE_STATE, clixml.pipeline_state(4))]
        ps = PowerShell(p)
        ps.add_cmdlet("C").add_argument(TaggedValue("SS", "there"))
        same(list(ps.invoke()), ["back"], "secure string received")
        pipe = list(s.shells[p.id.upper()].pipes.values())[-1]
        same([unseal(key, x) for x in secrets(pipe.created, [])], ["there"], "secure string at the server")
    same(len(s.public_keys), 2, "public keys published in the end")
    return (), True


OPS = [["exchange"], ["use", "exchange", "use"], ["exchange", "exchange", "use"], ["avail", "exchange", "avail", "use"], ["exchange", "avail", "exchange", "use"]]


def cases(tier):
    out = []
    for t in (60000, 30000, 1000, 0):
        for o in OPS:
            out.append(["exchange", t, o])
    ts = texts(tier)
    for kind in SINKS:
        step = 20
        for i in range(0, len(ts), step):
            out.append(["sink", kind, i, i + step])
        if kind != "host":
            out.append(["unkeyed", kind])
    for kind in SOURCES[:6]:
        for i in range(0, len(ts), 20):
            out.append(["source", kind, i, i + 20])
    out.append(["pools"])
    out.append(["started"])
    return out


def run_case(case, rep):
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    k = case[0]
    if k == "exchange":
        core.explore(lambda ctx: exchange(ctx, case[1], case[2]), rep, bound=3 if thorough else 2, cap=60000, case=case)
    elif k in ("sink", "source"):
        ts = list(enumerate(texts("")))[case[2]:case[3]]
        f = sink if k == "sink" else source
        for i, t in ts:
            if not thorough and (i + len(case[1])) % (1 if case[1] in ("meta", "output") else 5):
                continue
            for key in KEYS if thorough else [KEYS[i % len(KEYS)]]:
                rep.execute(lambda: f(case[1], key, t), case=case, choices=lambda: [i, key.hex()])
    elif k == "started":
        points = ["before0", "after0", "before1", "after1", "before2", "after2"]
        for n in (1, 2, 3):
            for at in itertools.combinations(points, n):
                for together in (False, True):
                    for client in (None, 0, 1, 2):
                        rep.execute(lambda: started(at, together, client), case=case, choices=lambda: repr((at, together, client)))
    elif k == "unkeyed":
        rep.execute(lambda: unkeyed(case[1]), case=case)
    else:
        rep.execute(pools, case=case)
