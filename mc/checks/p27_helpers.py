"""P27: one-shot execution helpers report exactly what the server produced."""
import itertools
import os

import requests

from mc import clixml, core, drive, server, winrs, wire
from mc.core import need, same
from mc.server import Fault, Raw

PROP = "P27"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of the server's outputs, stream records and final states (all short sequences), of environments, encodings and deliveries, of the failing request x how, and of all short embedded-error documents, on the real Client.execute_ps, execute_cmd and sanitise_clixml"
LEVEL_NOTE = "Complete over all sequences of up to three (thorough four) messages from 9 kinds x three final states (quick: one of them per sequence of three), all pairs of environment variables from a list of awkward ones, all byte sequences of up to three chunks under six encodings with every split, every request position x seven failure kinds x before/after execution, and all documents of up to three (thorough four) elements from eleven kinds in seven framings."
RULE = "one evaluation = one helper call or document; non-trivial when there is any output, failure or record"
ASSUMPTIONS = ["whether a script failed is the final state the server reports", "a reply to Receive that is lost on the wire is not sent again by the server"]

TXT = ["", "a", "line\r\n", "\u00e9\U0001f600 <&>", "_x0041_"]


def out(t):
    return wire.OUTPUT, "<S>%s</S>" % clixml.escape(t)


MSG = {"o%d" % i: out(t) for i, t in enumerate(TXT)}
MSG["err"] = (wire.ERROR, clixml.error_record("bad thing", "Fq"))
MSG["warn"] = (wire.WARNING, clixml.info_record("Warning", "careful"))
MSG["verb"] = (wire.VERBOSE, clixml.info_record("Verbose", "details"))
MSG["info"] = (wire.INFORMATION, clixml.information("note"))
RECORD = {"err": ("error", "bad thing"), "warn": ("warning", "careful"), "verb": ("verbose", "details"), "info": ("information", "note")}
FINAL = {"done": (wire.PIPE_STATE, clixml.pipeline_state(4)), "failed": (wire.PIPE_STATE, clixml.pipeline_state(5, "boom")), "failed-bare": (wire.PIPE_STATE, clixml.pipeline_state(5))}


def client(**kw):
    from pypsrp.client import Client
    return Client("srv", ssl=True, auth="basic", username="u", password="p", **kw)


def pipeline_of(srv):
    sh = next(iter(srv.shells.values()))
    need(len(sh.pipes) == 1, "%d pipelines were started" % len(sh.pipes), "pipelines")
    return sh, clixml.plain(next(iter(sh.pipes.values())).created)["PowerShell"]


def statements(ps):
    """the pipeline sent, as statements of (command, is script, [(name, value)])"""
    def cmds(l):
        return [(c["Cmd"], c["IsScript"], [(a["N"], a["V"]) for a in c["Args"]]) for c in l]
    if ps.get("ExtraCmds"):
        return [cmds(e["Cmds"]) for e in ps["ExtraCmds"]]
    return [cmds(ps["Cmds"])]


def expected(script, env):
    res = []
    for k, v in (env or {}).items():
        res.append([("New-Item", False, [("Path", "env:"), ("Name", k), ("Value", v), ("Force", True)]), ("Out-Null", False, [])])
    res.append([("Invoke-Expression", False, [("Command", script)]), ("Out-String", False, [("Stream", None)])])
    return res


def clean(srv):
    need(not srv.errors, "request the server cannot accept: %s" % (srv.errors[:2],), "requests")
    need(not srv.oversize, "over the envelope limit: %s" % (srv.oversize[:2],), "oversize")
    need(all(s.closed for s in srv.shells.values()), "the pool was left on the server", "closed")
    need(srv.actions().count("Delete") == len(srv.shells), "the pool was removed %d times" % srv.actions().count("Delete"), "delete")


def judge_ps(r, seq, final):
    text, streams, failed = r
    same(text, "\n".join(TXT[int(m[1])] for m in seq if m[0] == "o"), "output", "ps-output")
    want = {s: [] for s in drive.STREAMS}
    for m in seq:
        if m in RECORD:
            want[RECORD[m][0]].append(RECORD[m][1])
    if final == "failed":
        want["error"].append("boom")
    same({s: [str(x) for x in getattr(streams, s)] for s in drive.STREAMS}, want, "streams", "ps-streams")
    same(bool(failed), final != "done", "had_errors", "ps-failed")


def run_ps(case, rep):
    _, n, first = case
    names = sorted(MSG)
    for seq in itertools.product(names, repeat=n):
        if n and seq[0] != names[first]:
            continue
        for fi, final in enumerate(FINAL):
            if n == 3 and os.environ.get("VERIF_TIER") != "thorough" and fi != sum(map(names.index, seq)) % 3:
                continue

            def go():
                srv = server.ScriptServer([MSG[m] for m in seq] + [FINAL[final]]).install()
                if (len(seq) + names.index(seq[0]) if seq else 0) % 2:
                    orig, k = srv.take, [0]

                    def take(req, q):
                        k[0] += 1
                        return [] if k[0] % 2 else orig(req, q)
                    srv.take = take
                r = client().execute_ps("the script")
                judge_ps(r, seq, final)
                clean(srv)
                return (seq, final), bool(seq)
            rep.execute(go, case=list(case) + [seq, final])


ENVS = [("A", "1"), ("PATH", "C:\\a;b"), ("n m", ""), ("Q", "'\"$x`n"), ("\u00fc", "\u00e9\U0001f600\r\n"), ("X<&>", "_x0041_"), ("a", "lower")]
SCRIPTS = ["x", "Write-Output 'a'\r\n\"$env:B\" <&> `n", "\u00e9\U0001f600 _x000A_", " "]


def run_env(case, rep):
    _, n = case
    for pairs in itertools.permutations(ENVS, n):
        for si, script in enumerate(SCRIPTS if n < 2 else SCRIPTS[1:2]):
            def go():
                srv = server.ScriptServer([MSG["o1"], FINAL["done"]]).install()
                env = dict(pairs)
                before = list(env.items())
                kw = {} if n == 0 and si % 2 else {"environment": env}
                r = client().execute_ps(script, configuration_name="My.Conf" if si % 2 else "Microsoft.PowerShell", **kw)
                same(r[0], "a", "output", "env-output")
                sh, ps = pipeline_of(srv)
                got = statements(ps)
                # a switch parameter may carry true or nothing
                got = [[(c, s, [(k, None if k == "Stream" and v is True else v) for k, v in a]) for c, s, a in st] for st in got]
                same(got, expected(script, env), "statements sent", "statements")
                need(sh.uri.endswith("/My.Conf" if si % 2 else "/Microsoft.PowerShell"), "configuration %s" % sh.uri, "configuration")
                same(list(env.items()), before, "the caller's environment", "env-changed")
                clean(srv)
                return (pairs, si), True
            rep.execute(go, case=list(case) + [pairs, si])


def run_many(case, rep):
    """many variables, many lines of output, many records"""
    for n in (21, 100, 500):
        def go():
            seq = ["o1", "err", "o2"] * (n if n < 500 else 800)
            srv = server.ScriptServer([MSG[m] for m in seq] + [FINAL["done"]]).install(horizon=5 * len(seq) + 200)
            env = {"V%d" % (i * 7 % 1501): "x%d" % i for i in range(n)}
            r = client().execute_ps("s", environment=env)
            judge_ps(r, seq, "done") if n < 500 else same(r[0], "\n".join(TXT[int(m[1])] for m in seq if m[0] == "o"), "output", "ps-output")
            sh, ps = pipeline_of(srv)
            got = [[(c, s, [(k, None if k == "Stream" and v is True else v) for k, v in a]) for c, s, a in st] for st in statements(ps)]
            same(got, expected("s", env), "statements sent", "statements")
            clean(srv)
            return n, True
        rep.execute(go, case=["many", n])


BYTES = {"437": [b"a", b"\x82\xff", b"\r\n", b""], "utf-8": [b"a", b"\xc3", b"\xa9", b"\xf0\x9f\x98\x80"], "cp850": [b"\xd0", b"\x00", b"z"], "utf-16-le": [b"a\0", b"=\xd8", b"\0\xde"], "latin-1": [b"\xff", b"\x80"], "cp932": [b"\x83", b"\x41", b"a"]}


def run_cmd(case, rep):
    _, enc, n = case
    for seq in itertools.product([(s, b) for s in ("stdout", "stderr") for b in BYTES[enc]], repeat=n):
        so, se = (b"".join(b for s, b in seq if s == k) for k in ("stdout", "stderr"))
        try:
            want = (so.decode(enc), se.decode(enc))
        except UnicodeDecodeError:
            want = None
        for rc in ((0, 1, -1, 4294967295, None) if n < 2 else (3,)):
            for split in (False, True):
                def go():
                    rs = [([x], "Running", None) for x in seq] + ["timeout", ([], "Done", rc)] if split else [(list(seq), "Done", rc)]
                    srv = winrs.CmdServer(lambda c: rs).install()
                    try:
                        r = client().execute_cmd("run me", encoding=enc)
                    except UnicodeDecodeError:
                        need(want is None, "the output was not decoded", "cmd-decode")
                        r = None
                    if want is not None:
                        same(tuple(r), want + (-1 if rc is None else rc,), "stdout, stderr and exit code", "cmd-output")
                    else:
                        need(r is None, "undecodable output became %r" % (r,), "cmd-undecodable")
                    need(not srv.errors, "request: %s" % (srv.errors[:2],), "requests")
                    same([s.deleted for s in srv.order], [1], "deletes of the shell", "cmd-delete")
                    return (seq, rc), n > 0
                rep.execute(go, case=list(case) + [seq, rc, split])


def run_cmdenv(case, rep):
    _, n = case
    for pairs in itertools.permutations(ENVS, n):
        for command in ("dir", "powershell.exe -enc \"a b\" & <x>", "\u00e9\U0001f600"):
            def go():
                srv = winrs.CmdServer().install()
                env = dict(pairs)
                kw = {} if n == 0 and command == "dir" else {"environment": env}
                r = client().execute_cmd(command, **kw)
                same(tuple(r), ("", "", 0), "outcome", "cmdenv-output")
                sh = srv.order[0]
                same(sorted(sh.env or []), sorted(env.items()), "environment the server was sent", "cmdenv")
                c = next(iter(sh.commands.values()))
                same((c.executable, c.arguments), (command, []), "command the server was sent", "cmd-command")
                need(not srv.errors, "request: %s" % (srv.errors[:2],), "requests")
                same([s.deleted for s in srv.order], [1], "deletes of the shell", "cmd-delete")
                return (pairs, command), True
            rep.execute(go, case=list(case) + [pairs, command])


KINDS = {"fault": lambda: Fault(server.ACCESS_DENIED), "fault-quota": lambda: Fault(2150859173), "500": lambda: Raw(500, b"", {}), "401": lambda: Raw(401, b"", {}), "html": lambda: Raw(200, b"<html>", {"Content-Type": "text/html"}), "conn": lambda: requests.ConnectionError("cut"), "read": lambda: requests.ReadTimeout("slow")}


def fault_server(which):
    if which == "ps":
        return server.ScriptServer([MSG["o1"], MSG["err"], MSG["o2"], FINAL["done"]]).install(), lambda c: c.execute_ps("s", environment={"A": "1"})
    if which == "ps-failed":
        return server.ScriptServer([MSG["o1"], FINAL["failed"]]).install(), lambda c: c.execute_ps("s")
    if which == "ps-long":
        return server.ScriptServer([MSG["o1"], FINAL["done"]]).install(), lambda c: c.execute_ps("s" * 20000)
    return winrs.CmdServer(lambda c: [([("stdout", b"a")], "Running", None), ([("stderr", b"b")], "Running", 4), ([], "Done", 4)]).install(), lambda c: c.execute_cmd("x", environment={"A": "1"})


WANT = {"ps": ("a\nline\r\n", False), "ps-failed": ("a", True), "ps-long": ("a", False), "cmd": ("a", "b", 4)}


def shape(which, r):
    return tuple(r) if which == "cmd" else (r[0], bool(r[2]))


def run_faults(case, rep):
    _, which, kind, after = case
    srv, call = fault_server(which)
    same(shape(which, call(client(max_envelope_size=8192))), WANT[which], "outcome", "fault-free")
    actions = srv.actions()
    for at in range(len(actions)):
        if kind == "read" and after and actions[at] == "Receive":
            continue

        def go():
            srv, call = fault_server(which)
            if after:
                orig = srv.after

                def aft(req, body):
                    if len(srv.log) - 1 == at:
                        raise KINDS[kind]()
                    return orig(req, body)
                srv.after = aft
            else:
                def bef(req):
                    if len(srv.log) - 1 == at:
                        raise KINDS[kind]()
                srv.before = bef
            c = client(max_envelope_size=8192)
            try:
                r = call(c)
            except (core.Violation, core.HarnessError):
                raise
            except Exception as e:
                r = e
            a = actions[at]
            if not isinstance(r, Exception):
                need(a == "Delete" or (kind == "read" and a == "Receive"), "returned %r although request %d (%s) failed" % (r, at, a), "fault-ignored")
                same(shape(which, r), WANT[which], "outcome", "fault-outcome")
            elif kind == "fault" or kind == "fault-quota":
                need(getattr(r, "code", None) in (server.ACCESS_DENIED, 2150859173), "another error surfaced: %r" % (r,), "fault-other")
            elif kind in ("conn", "read"):
                need(isinstance(r, (requests.ConnectionError, requests.ReadTimeout)), "another error surfaced: %r" % (r,), "fault-other")
            if a != "Create":
                deletes = [i for i, x in enumerate(srv.log) if x.action == "Delete"]
                same(len(deletes), 1, "attempts to remove the shell after %s failed" % a, "fault-delete")
            # the connection still serves the next call
            srv2, call2 = srv, call
            srv.before = lambda req: None
            srv.after = lambda req, body: body
            same(shape(which, call(c)), WANT[which], "outcome of the next call", "fault-next")
            return (at, type(r).__name__), True
        rep.execute(go, case=list(case) + [at])


NS = "http://schemas.microsoft.com/powershell/2004/04"
PIECES = {
    "a": ("E", "a"), "nl": ("E", "one_x000D__x000A_"), "us": ("E", "tail_"), "x4": ("E", "x0041_b"), "esc": ("E", "_x005F_x0041_"), "none": ("E", None), "xml": ("E", "<b> & \"c\" "), "uni": ("E", "\u00e9\U0001f600"),
    "warn": ("Warning", "w_x000D__x000A_"), "prog": ("obj", None), "dbg": ("Debug", "d"),
}


def document(names, head="#< CLIXML\r\n"):
    body, text = "", ""
    for n in names:
        kind, t = PIECES[n]
        if kind == "obj":
            body += '<Obj S="progress" RefId="0"><TN RefId="0"><T>System.Management.Automation.PSCustomObject</T></TN><MS><S N="Activity">Preparing</S><S S="Error" N="x">not an error</S></MS></Obj>'
        elif t is None:
            body += '<S S="Error" />'
        else:
            body += '<S S="%s">%s</S>' % ({"E": "Error"}.get(kind, kind), clixml.xml(t))
            if kind == "E":
                text += clixml.unescape(t)
    return '%s<Objs Version="1.1.0.1" xmlns="%s">%s</Objs>' % (head, NS, body), text


def run_sanitise(case, rep):
    _, n, first = case
    from pypsrp.client import Client
    names = sorted(PIECES)
    for seq in itertools.product(names, repeat=n):
        if n and seq[0] != names[first]:
            continue
        for framing in ("crlf", "lf", "tail-nl", "bytes", "text-after", "two", "tail-text-crlf"):
            def go():
                doc, want = document(seq, {"lf": "#< CLIXML\n"}.get(framing, "#< CLIXML\r\n"))
                if framing == "tail-nl":
                    doc += "\r\n"
                if framing == "text-after":
                    doc, want = doc + "plain < text", want + "plain < text"
                if framing == "tail-text-crlf":
                    doc, want = doc + "plain\r\n", want + "plain\r\n"
                if framing == "two":
                    d2, w2 = document(("a", "warn", "nl"))
                    doc, want = doc + d2, want + w2
                same(Client.sanitise_clixml(doc.encode("utf-8") if framing == "bytes" else doc), want, "cleaned text", "sanitise")
                return (seq, framing), n > 0
            rep.execute(go, case=list(case) + [seq, framing])


OTHER = ["", "a", "<Objs>", "#<", "#< CLIXM", "#", " #< CLIXML\r\n<Objs/>", "error: #< CLIXML", "\r\n", "\u00e9", "_x000A_", "<S S=\"Error\">x</S>", "&amp;"]


def run_other(case, rep):
    from pypsrp.client import Client
    for n in (1, 2):
        for t in itertools.product(OTHER, repeat=n):
            text = "".join(t)
            if text.startswith("#< CLIXML"):
                continue

            def go():
                same(Client.sanitise_clixml(text), text, "other text", "sanitise-other")
                return text, bool(text)
            rep.execute(go, case=["other", list(t)])


def cases(tier):
    t = tier == "thorough"
    N = 4 if t else 3
    c = [("ps", n, f) for n in range(N, 0, -1) for f in range(len(MSG))] + [("ps", 0, 0)]
    c += [("cmd", e, n) for e in BYTES for n in (range(4 if t else 3))]
    c += [("env", n) for n in ((3, 2, 1, 0) if t else (2, 1, 0))] + [("cmdenv", n) for n in ((3, 2, 1, 0) if t else (2, 1, 0))]
    c += [("faults", w, k, a) for w in WANT for k in KINDS for a in (False, True)]
    c += [("sanitise", n, f) for n in range(N, 0, -1) for f in range(len(PIECES))] + [("sanitise", 0, 0), ("other",), ("many",)]
    return c


def run_case(case, rep):
    {"ps": run_ps, "many": run_many, "env": run_env, "cmd": run_cmd, "cmdenv": run_cmdenv, "faults": run_faults, "sanitise": run_sanitise, "other": run_other}[case[0]](case, rep)
