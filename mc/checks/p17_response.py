"""P17: a reply counts only when it answers the request; faults and failure statuses become exact errors."""
import itertools
import os
import re
import xml.etree.ElementTree as ET

import requests

from mc import core, env
from mc.core import need, same

PROP = "P17"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of reply classes (correlation x status x every subset of fault fields x body shapes) for every action on the real WSMan client over a scripted HTTP adapter, and of all short histories of reply classes on one connection"
LEVEL_NOTE = "Complete over the listed correlation values, statuses, fault field subsets and body shapes for every action method, and over all histories of three requests over nine reply classes; replies that succeed at HTTP level use content types with an explicit character set."
RULE = "one evaluation = one request (or history of requests) answered by one vector of reply classes; non-trivial when the client used or refused the reply"
ASSUMPTIONS = ["the HTTP adapter seam returns what a server would return after TLS, authentication and library retries"]

S = "http://www.w3.org/2003/05/soap-envelope"
WSA = "http://schemas.xmlsoap.org/ws/2004/08/addressing"
WF = "http://schemas.microsoft.com/wbem/wsman/1/wsmanfault"
ACTIONS = ["command", "connect", "create", "disconnect", "delete", "enumerate", "get", "pull", "put", "receive", "reconnect", "send", "signal"]
RIGHT = "right"
CORR = [RIGHT, "other", "previous", "noheader", "norelates", "empty", "noprefix", "truncated", "longer", "request-action"]
STATUSES = [400, 403, 404, 405, 407, 408, 409, 410, 413, 414, 418, 422, 425, 429, 431, 451, 499, 500, 501, 502, 503, 504, 505, 511, 599]
AUTH = [401]
TEXTS = {
    "empty": "",
    "plain": "no such page",
    "unicode": "p\u00e4ge \u20ac \U0001f600 & < >",
    "html": "<html><head><title>Bad<br></title></head><body>gone</body>",
    "xhtml": "<html xmlns='http://www.w3.org/1999/xhtml'><head><title>Error</title></head><body><h1>500</h1></body></html>",
    "xml": "<error code='5'>oops</error>",
    "json": '{"error": {"code": "x"}}',
    "soap11": "<s:Envelope xmlns:s='http://schemas.xmlsoap.org/soap/envelope/'><s:Body><s:Fault><faultcode>x</faultcode></s:Fault></s:Body></s:Envelope>",
    "cut": "<s:Envelope xmlns:s='%s'><s:Body><s:Fault><s:Code><s:Value>s:Sender" % S,
    "twice": "<a/><b/>",
    "nul": "a\x00b",
    "space": "  \r\n ",
}


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")


def corr(c, mid, prev):
    if c == "noheader":
        return ""
    if c == "norelates":
        return "<s:Header><wsa:Action>x</wsa:Action></s:Header>"
    v = {RIGHT: mid, "other": "uuid:11111111-2222-4333-8444-555555555555", "previous": prev or "uuid:00000000-0000-0000-0000-000000000000", "empty": "",
         "noprefix": mid[5:], "truncated": mid[:-1], "longer": mid + "0", "request-action": "uuid:"}[c]
    return "<s:Header><wsa:Action>x</wsa:Action><wsa:MessageID>%s</wsa:MessageID><wsa:RelatesTo>%s</wsa:RelatesTo></s:Header>" % ("uuid:99999999-2222-4333-8444-555555555555", v)


def envelope(c, mid, prev, body):
    return '<s:Envelope xmlns:s="%s" xmlns:wsa="%s" xmlns:f="%s">%s%s</s:Envelope>' % (S, WSA, WF, corr(c, mid, prev), body)


def fault_xml(f, pretty=False):
    """f: dict of present fields"""
    nl = "\n   " if pretty else ""
    o = "<s:Fault>" + nl
    if "value" in f or "subcode" in f:
        o += "<s:Code>" + nl + ("<s:Value>%s</s:Value>" % f["value"] if "value" in f else "") + nl
        o += "<s:Subcode>%s<s:Value>%s</s:Value></s:Subcode>" % (nl, f["subcode"]) if "subcode" in f else ""
        o += nl + "</s:Code>"
    if "text" in f:
        o += "<s:Reason>%s<s:Text xml:lang=\"en-US\">%s</s:Text>%s</s:Reason>" % (nl, esc(f["text"]), nl)
    if "wsman" in f:
        o += "<s:Detail>%s<f:WSManFault" % nl
        for k, a in (("code", "Code"), ("machine", "Machine")):
            if k in f:
                o += ' %s="%s"' % (a, esc(f[k]))
        o += ">"
        if "message" in f or "pf" in f:
            o += nl + "<f:Message>" + (esc(f["message"]) if "message" in f else "") + nl
            if "pf" in f:
                o += "<f:ProviderFault"
                for k, a in (("provider", "provider"), ("path", "path")):
                    if k in f:
                        o += ' %s="%s"' % (a, esc(f[k]))
                o += ">%s</f:ProviderFault>" % esc(f.get("pftext", ""))
            o += nl + "</f:Message>"
        o += nl + "</f:WSManFault></s:Detail>"
    return o + "</s:Fault>"


def fault_want(f):
    code = f.get("code", f.get("subcode", f.get("value"))) if "wsman" in f else f.get("subcode", f.get("value"))
    if code is not None and re.fullmatch(r"-?[0-9]+", code):
        code = int(code)
    reason = f.get("text")
    out = [code, None, None, None, None, None]
    if "wsman" in f:
        out[1] = f.get("machine")
        reason = f.get("message") or reason
        if "pf" in f:
            out[3:] = [f.get("provider"), f.get("path"), (f.get("pftext") or "").strip() or None]
    out[2] = (reason or "").strip() or None
    return tuple(out)


def fault_subsets(numeric):
    code = "2150858793" if numeric else "w:Sym.Code"
    vals = {"value": "s:Receiver", "subcode": "w:TimedOut" if not numeric else "5", "text": "The operation timed out & more.", "code": code, "machine": "host.domain",
            "message": " d\u00e9tail <of> it\n", "provider": "Shell cmd plugin", "path": "%systemroot%\\x.dll", "pftext": "The parameter is incorrect. "}
    outs = []
    for top in itertools.product((0, 1), repeat=3):
        base = {k: vals[k] for k, b in zip(("value", "subcode", "text"), top) if b}
        outs.append(base)
        for cm in itertools.product((0, 1), repeat=3):
            w = dict(base, wsman=1, **{k: vals[k] for k, b in zip(("code", "machine", "message"), cm) if b})
            outs.append(w)
            for pf in itertools.product((0, 1), repeat=3):
                outs.append(dict(w, pf=1, **{k: vals[k] for k, b in zip(("provider", "path", "pftext"), pf) if b}))
    return outs


class Net:
    """answers request k with replies[k]"""

    def __init__(self, replies):
        self.replies = replies
        self.n = 0
        self.mids = []
        self.bodies = []
        env.start(self, horizon=50)

    def __call__(self, adapter, request, kw):
        body = request.body
        root = ET.fromstring(body)
        mid = root.findtext("{%s}Header/{%s}MessageID" % (S, WSA))
        need(mid not in self.mids, "message id repeats")
        self.mids.append(mid)
        prev = self.mids[-2] if len(self.mids) > 1 else None
        st, text, ctype = self.replies[self.n](mid, prev)
        self.n += 1
        self.bodies.append(text)
        r = env.response(adapter, request, st, text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass"), {"Content-Type": ctype})
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        return r


SOAP = "application/soap+xml;charset=UTF-8"


def ok(c=RIGHT, st=200, tag="x"):
    return lambda mid, prev: (st, envelope(c, mid, prev, "<s:Body><%s>payload</%s></s:Body>" % (tag, tag)), SOAP)


def nobody(c=RIGHT, st=200):
    return lambda mid, prev: (st, envelope(c, mid, prev, ""), SOAP)


def flt(f, st=500, c=RIGHT, pretty=False):
    return lambda mid, prev: (st, envelope(c, mid, prev, "<s:Body>%s</s:Body>" % fault_xml(f, pretty)), SOAP)


def text(t, st, ctype=SOAP):
    return lambda mid, prev: (st, t, ctype)


def conn():
    from pypsrp.wsman import WSMan
    return WSMan("srv", username="u", password="p", ssl=False, auth="basic", encryption="never")


def call(w, action):
    if action == "invoke":
        return w.invoke("http://x/Custom", "http://r", None)
    if action == "config":
        return w.get_server_config()
    return getattr(w, action)("http://r", ET.Element("{http://t}Req"))


def attempt(w, action):
    from pypsrp import exceptions as X
    try:
        r = call(w, action)
    except core.Violation:
        raise
    except X.WSManFaultError as e:
        return ("fault", (e.code, e.machine, e.reason, e.provider, e.provider_path, e.provider_fault), str(e))
    except X.WinRMTransportError as e:
        return ("transport", e.code, e.response_text, str(e))
    except X.AuthenticationError as e:
        return ("auth",)
    except Exception as e:
        return ("error", type(e).__name__)
    need(r is not None, "a reply without content is returned as a result")
    if action == "invoke":
        r = r.find("{%s}Body" % S)
        need(r is not None, "a reply without a body is returned as a result")
    return ("ok", ET.tostring(r))


def judge(net, k, action, want, got):
    kind = want[0]
    if kind == "ok":
        same(got[0], "ok", "outcome of a correct reply to %s" % action, "correct reply refused")
        need(got[1].count(b"payload") == 1 and want[1].encode() in got[1], "the body returned is not the server's: %r" % (got[1],), "body")
    elif kind == "refuse":
        need(got[0] != "ok", "%s: %s was returned as a result" % (action, want[1]), "accepted: " + want[1])
    elif kind == "fault":
        same(got[0], "fault", "%s: outcome of a fault" % action, "fault not raised as a fault error")
        same(got[1], want[1], "%s: details of the fault error" % action, "fault details")
        for v in want[1]:
            need(v is None or str(v) in got[2], "error text %r does not show %r" % (got[2], v), "fault text")
    elif kind == "transport":
        same(got[0], "transport", "%s: outcome of status %s" % (action, want[1]), "failure status not raised as a transport error")
        same(got[1:3], want[1:3], "%s: status and text of the transport error" % action, "transport details")
        need(str(want[1]) in got[3] and want[2] in got[3], "error text does not show status and content")
    elif kind == "auth":
        same(got[0], "auth", "%s: outcome of a refused login" % action)
    return got[0]


CLASSES = None


def classes():
    """name -> (reply, want)"""
    f1 = {"value": "s:Receiver", "subcode": "w:TimedOut", "text": "t", "wsman": 1, "code": "2150858793", "machine": "m", "message": "mm"}
    f2 = {"value": "s:Sender", "text": "other"}
    return {
        "ok": (ok(), ("ok", "x")), "ok2": (ok(tag="y"), ("ok", "y")), "previous": (ok("previous"), ("refuse", "a reply to another request")), "none": (ok("norelates"), ("refuse", "a reply naming no request")),
        "fault1": (flt(f1), ("fault", fault_want(f1))), "fault2": (flt(f2), ("fault", fault_want(f2))),
        "plain": (text("gone", 404), ("transport", 404, "gone")), "401": (text("", 401), ("auth",)), "blank": (text("", 200), ("refuse", "an empty reply")),
    }


def run(replies, acts, wants):
    net = Net(replies)
    w = conn()
    out = []
    for k, a in enumerate(acts):
        got = attempt(w, a)
        same(net.n, k + 1, "%s: requests sent" % a, "not sent exactly once")
        want = wants[k]
        if callable(want):
            want = want(net, k)
        out.append(judge(net, k, a, want, got))
    return tuple(out), True


def cases(tier):
    out = [["fault", a] for a in ["create"] + [x for x in ACTIONS if x != "create"] + ["invoke", "config"]] + [["corr", a] for a in ACTIONS + ["invoke", "config"]] + [["text", a] for a in ACTIONS + ["invoke", "config"]]
    out += [["hist", a] for a in ("receive", "send", "create", "signal")] + [["size"], ["ctype"]]
    return out


def run_case(case, rep):
    kind = case[0]
    big = os.environ.get("VERIF_TIER") == "thorough"
    a = case[1] if len(case) > 1 else None

    def one(replies, acts, wants, ch):
        rep.execute(lambda: run(replies, acts, wants), case=case, choices=lambda: ch)

    if kind == "fault":
        for numeric in (0, 1):
            for i, f in enumerate(fault_subsets(numeric)):
                sts = (500, 400, 403, 404, 503, 200)
                if not big:
                    sts = (500, sts[1 + i % 5]) if a != "create" else sts
                for st in sts:
                    for c in ((RIGHT, "norelates") if (big or a == "create") else ((RIGHT, "norelates")[i % 2],)) if st != 200 else (RIGHT,):
                        for pretty in ((0, 1) if (big or i % 7 == 0) else (i % 2,)):
                            want = fault_want(f)
                            one([flt(f, st, c, pretty)], [a], [("fault", want)], ["fault", f, st, c, pretty])
                # a foreign success-status fault is not this request's result either
                if i % 11 == 0:
                    one([flt(f, 200, "other")], [a], [("refuse", "a foreign fault")], ["foreignfault", f])
        for codes in ({"code": "0"}, {"code": "-2147024809"}, {"code": "5"}, {"subcode": "12"}, {"value": "7"}, {"code": "0x80338029"}, {"code": "http://x/y#z"}):
            f = dict({"value": "s:Sender"}, **codes)
            if "code" in f:
                f["wsman"] = 1
            one([flt(f)], [a], [("fault", fault_want(f) if f.get("code") != "0" else fault_want(f))], ["code", codes]) if f.get("code") != "0" else None
    elif kind == "corr":
        for c in CORR:
            for st in (200, 201, 202, 206):
                want = ("ok", "x") if c == RIGHT else ("refuse", "a reply with %s correlation" % c)
                one([ok(c, st)], [a], [want], ["corr", c, st])
                one([nobody(c, st)], [a], [("refuse", "a reply without a body")], ["nobody", c, st])
            for first in (RIGHT, "norelates"):
                one([ok(first), ok(c)], [a, a], [("ok", "x") if first == RIGHT else ("refuse", "unrelated"), ("ok", "x") if c == RIGHT else ("refuse", "a reply with %s correlation" % c)], ["corr2", first, c])
            # an HTTP failure carrying an envelope that is not a fault
            for st in (500, 404, 503):
                for mk, nm in ((ok, "body"), (nobody, "nobody")):
                    one([mk(c, st)], [a], [lambda net, k, st=st: ("transport", st, net.bodies[k])], ["nofault", c, st, nm])
    elif kind == "text":
        for n, t in TEXTS.items():
            for st in STATUSES:
                one([text(t, st)], [a], [("transport", st, t)], ["text", n, st])
            for st in AUTH:
                one([text(t, st)], [a], [("auth",)], ["text", n, st])
            for st in (200, 202, 204, 206, 300, 304, 305, 306):
                one([text(t, st)], [a], [("refuse", "a %s reply with status %d" % (n, st))], ["text", n, st])
    elif kind == "hist":
        cl = classes()
        for h in itertools.product(cl, repeat=4 if big else 3):
            acts = [a if i % 2 == 0 else ("get" if a != "send" else "receive") for i in range(len(h))]
            one([cl[x][0] for x in h], acts, [cl[x][1] for x in h], list(h))
    elif kind == "ctype":
        f = {"value": "s:Receiver", "text": "sch\u00f6n \u20ac", "wsman": 1, "code": "5", "message": "d\u00e9tail \u4e2d", "machine": "m\u00e4"}
        for enc, ct in (("utf-8", "application/soap+xml;charset=UTF-8"), ("utf-8", "application/soap+xml; charset=utf-8"), ("utf-8", 'application/soap+xml; charset="UTF-8"'), ("utf-16", "application/soap+xml;charset=UTF-16"),
                        ("iso-8859-15", "text/xml; charset=iso-8859-15")):
            def reply(mid, prev, enc=enc, ct=ct):
                g = dict(f) if enc != "iso-8859-15" else dict(f, message="d\u00e9tail")
                return 500, envelope(RIGHT, mid, prev, "<s:Body>%s</s:Body>" % fault_xml(g)).encode(enc), ct
            g = dict(f) if enc != "iso-8859-15" else dict(f, message="d\u00e9tail")
            for act in ACTIONS:
                one([reply], [act], [("fault", fault_want(g))], [enc, ct, act])
    elif kind == "size":
        def cfg(inner):
            return lambda mid, prev: (200, envelope(RIGHT, mid, prev, '<s:Body><cfg:Config xmlns:cfg="http://schemas.microsoft.com/wbem/wsman/1/config">%s</cfg:Config></s:Body>' % inner), SOAP)
        good = {"<cfg:MaxEnvelopeSizekb>%d</cfg:MaxEnvelopeSizekb>" % k: k * 1024 for k in (32, 150, 500, 8192)}
        bad = ["", "<cfg:MaxEnvelopeSizekb/>", "<cfg:MaxEnvelopeSizekb>abc</cfg:MaxEnvelopeSizekb>", "<cfg:MaxTimeoutms>60000</cfg:MaxTimeoutms>"]
        badr = [ok(), ok("other"), nobody(), text("", 200), text("x", 404), text("", 401), flt({"value": "x"})]

        def body(reply, want):
            net = Net([reply])
            w = conn()
            before = (w.max_envelope_size, w.max_payload_size)
            try:
                w.update_max_payload_size()
            except Exception as e:
                need(want is None, "a good configuration reply is refused: %r" % e)
                same((w.max_envelope_size, w.max_payload_size), before, "sizes after a failed update")
                return ("refused", type(e).__name__), True
            need(want is not None, "a reply without the envelope size was taken as a success (size now %r)" % (w.max_envelope_size,), "size update accepted")
            same(w.max_envelope_size, want, "envelope size")
            need(0 < w.max_payload_size < want, "payload size %r for an envelope of %r" % (w.max_payload_size, want), "payload size")
            return ("ok", want), True
        for inner, want in good.items():
            rep.execute(lambda: body(cfg(inner), want), case=case, choices=lambda: [inner])
        for inner in bad:
            rep.execute(lambda: body(cfg(inner), None), case=case, choices=lambda: [inner])
        for i, r in enumerate(badr):
            rep.execute(lambda: body(r, None), case=case, choices=lambda: ["badr", i])
    rep.sample({"case": case})
