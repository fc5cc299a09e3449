"""P02: everything sent reaches the reference server whole, once, in order, in size."""
import itertools
import os

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P02"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive sweep of payload sizes, envelope sizes, options and operation sequences over the real client against a strict reference server that reassembles every request"
LEVEL_NOTE = ("Complete for every payload length up to more than two packets at small envelopes, the boundary lengths at real envelopes, and all operation sequences to the stated "
              "depth; assumes the reference server (mc/server.py) reads MS-PSRP/MS-WSMV as Windows does.")
RULE = "one evaluation = one session with one choice of envelope, options, payload sizes and operation order; non-trivial when at least one message needed more than one packet"
ASSUMPTIONS = ["the server implements MS-PSRP fragmentation strictly (mc/wire.py)", "envelope sizes below 3000 bytes are out of scope: not even the client's own control messages fit"]

TXT = "abcdefghijklmnopqrstuvwxyz0123456789"


def text(n, k=0):
    return (TXT[k % 36:] + TXT * (n // 36 + 1))[:n]


class Srv(server.FullServer):
    pass


def session(E, opts, ops, proto="2.3", ids="same", stable=None):
    """ops: list of (name, arg...); returns (nfrag>1)."""
    s = Srv()
    s.protocol = proto
    s.command_ids = ids
    s.install(horizon=4000)
    lines = []
    h = drive.host(read_line=lambda: lines.pop(0))
    kw = dict(opts)
    args = kw.pop("args", None)
    if E is not None:
        kw["max_envelope_size"] = E
    from pypsrp.powershell import PowerShell
    p = drive.pool(host=h, **kw)
    p.open(None if args is None else {"k": text(args)})
    sh = list(s.shells.values())[0]
    init = clixml.plain(sh.init)
    want_args = None if args is None else {"$dct": [("k", text(args))]}
    same(init["ApplicationArguments"], want_args, "application arguments received")
    same((init["MinRunspaces"], init["MaxRunspaces"]), (1, 1), "pool limits received")
    caps = clixml.plain(sh.caps)
    same(caps["protocolversion"], "2.3", "protocol version sent")
    lim = {"mn": 1, "mx": 1}
    want_pool = [wire.SESSION_CAPABILITY, wire.INIT_RUNSPACEPOOL]
    keyed = False
    for op in ops:
        name = op[0]
        npipes = len(sh.pipes)
        if name == "script":
            ps = PowerShell(p)
            ps.add_script(text(op[1]))
            out = ps.invoke()
            same(out, ["out"], "pipeline output")
            check_pipe(sh, npipes, [text(op[1])], None)
        elif name == "cmds":
            ps = PowerShell(p)
            for k, n in enumerate(op[1]):
                ps.add_script(text(n, k))
            ps.invoke()
            check_pipe(sh, npipes, [text(n, k) for k, n in enumerate(op[1])], None)
        elif name == "input":
            form, lens = op[1], op[2]
            ps = PowerShell(p)
            ps.add_script("in")
            items = [text(n, k) for k, n in enumerate(lens)]
            if form == "list":
                arg = list(items)
            elif form == "gen":
                arg = (x for x in items)
            elif form == "genlist":
                arg = ([x] for x in items)
            else:
                arg = (items[i:i + 2] for i in range(0, len(items), 2))
            ps.invoke(input=arg)
            check_pipe(sh, npipes, ["in"], items)
        elif name == "prompt":
            lines.append(text(op[1], 5))
            before = len(sh.host_responses)
            ps = PowerShell(p)
            ps.add_script("prompt")
            ps.invoke()
            got = sh.host_responses[before:]
            same(len(got), 1, "number of prompt answers")
            m = got[0]
            same(m.type, wire.PIPE_HOST_RESPONSE, "prompt answer type")
            d = clixml.plain(clixml.decode(m.body))
            same(d["ci"], 11, "prompt answer call id")
            same(d["mr"], text(op[1], 5), "prompt answer")
            need(m.rpid == sh.rpid, "prompt answer addressed to another pool")
        elif name == "keys":
            p.exchange_keys()
            if not keyed:
                want_pool.append(wire.PUBLIC_KEY)
                keyed = True
            same(len(s.public_keys), 1, "public keys received")
        elif name == "min":
            lim["mn"] += 1
            p.min_runspaces = lim["mn"]
            same(s.control[-1][0], wire.SET_MIN, "limit message")
            same(s.control[-1][1]["MinRunspaces"], lim["mn"], "minimum received")
            want_pool.append(wire.SET_MIN)
        elif name == "max":
            lim["mx"] += 2
            p.max_runspaces = lim["mx"]
            same(s.control[-1][0], wire.SET_MAX, "limit message")
            same(s.control[-1][1]["MaxRunspaces"], lim["mx"], "maximum received")
            want_pool.append(wire.SET_MAX)
        elif name == "avail":
            same(p.get_available_runspaces(), 7, "available runspaces")
            want_pool.append(wire.GET_AVAILABLE)
            lim["mx"] = p.max_runspaces if p.max_runspaces > lim["mx"] else lim["mx"]
        elif name == "reset":
            p.reset_runspace_state()
            want_pool.append(wire.RESET_RUNSPACE_STATE)
        elif name == "meta":
            names = [text(op[1], 3)]
            p.get_command_metadata(names)
            pipe = list(sh.pipes.values())[-1]
            same(len(sh.pipes), npipes + 1, "commands created")
            same([m.type for m in pipe.msgs], [wire.GET_COMMAND_METADATA], "messages of the metadata query")
            same(clixml.plain(pipe.created)["Name"], names, "names received")
        need(not s.errors, "the server rejects a request: %s" % "; ".join(s.errors[:3]), "server error: " + (s.errors or [""])[0].split("(")[0][:60])
        need(not sh.reasm.pending and not sh.pr.pending and not any(q.reasm.pending for q in sh.pipes.values()), "an unfinished message is left at the server")
    p.close()
    same([m.type for m in sh.msgs], want_pool, "pool messages received")
    need(not s.errors, "the server rejects a request: %s" % "; ".join(s.errors[:3]), "server error: " + (s.errors or [""])[0].split("(")[0][:60])
    need(not s.oversize, "request larger than the announced envelope: %s" % s.oversize[:2], "oversize %s" % (s.oversize or [("",)])[0][0])
    oids = sh.reasm.oids + [o for q in sh.pipes.values() for o in q.reasm.oids] + sh.pr.oids
    same(len(set(oids)), len(oids), "object ids used twice in one pool")
    same(sh.closed, True, "shell deleted")
    n = sum(1 for r in s.log if r.action in ("Create", "Command", "Send"))
    return n, tuple(s.sent_sizes)


def check_pipe(sh, n, cmds, items):
    same(len(sh.pipes), n + 1, "commands created")
    pipe = list(sh.pipes.values())[-1]
    same([c["Cmd"] for c in server.commands(pipe.created)], cmds, "commands received")
    same(clixml.plain(pipe.created)["NoInput"], items is None, "NoInput flag")
    if items is None:
        same([m.type for m in pipe.msgs], [wire.CREATE_PIPELINE], "messages of the pipeline")
    else:
        same([clixml.decode(b) for b in pipe.inputs], [("S", i) for i in items], "input items received")
        need(pipe.input_ended, "no end of input")
        same([m.type for m in pipe.msgs], [wire.CREATE_PIPELINE] + [wire.PIPELINE_INPUT] * len(items) + [wire.END_OF_INPUT], "messages of the pipeline")


def run(rep, case, E, opts, ops, **kw):
    def body():
        n, mx = session(E, opts, ops, **kw)
        return (n, mx), n > 2 + len(ops)
    rep.execute(body, case=case, choices=lambda: [E, opts, ops, kw])


OPTS = [{}, {"no_profile": True}, {"idle_timeout": 100}, {"no_profile": True, "idle_timeout": 2147483}]


def cases(tier):
    big = tier == "thorough"
    out = []
    for E in (3000, 3001, 3002, 3003) + ((3500, 4097) if big else ()):
        for kind in ("script", "open", "input", "input2", "prompt", "meta"):
            for part in range(4):
                out.append([kind, E, part])
    for i in range(4):
        out.append(["optopen", 3000, i])
    for form in ("list", "gen", "genlist", "genlist2"):
        for part in range(4 if big else 1):
            out.append(["items", form, part])
    for proto in ("2.1", "2.2", "2.3"):
        for E in (None, 32768, 153600, 512000) if big or proto == "2.2" else (None, 32768):
            out.append(["real", E, proto])
    for first in range(len(OPS)):
        out.append(["hist", first])
    out.append(["ids", 0])
    out += [["hundreds", n] for n in ((300, 1100) if big else (300,))]
    return out


OPS = [["script", 5], ["script", 1500], ["input", "list", [3, 900, 40]], ["input", "gen", [1200, 3]], ["prompt", 2], ["prompt", 1200], ["keys"], ["min"], ["max"], ["reset"], ["meta", 4], ["meta", 900]]


def run_case(case, rep):
    big = os.environ.get("VERIF_TIER") == "thorough"
    kind = case[0]
    if kind in ("script", "open", "input", "input2", "prompt", "meta"):
        E, part = case[1], case[2]
        step = 1 if big else 3 if E == 3000 else 11
        top = 1700 + (E - 3000)
        for n in range(part * step, top, 4 * step):
            if kind == "script":
                run(rep, case, E, {}, [["script", n]])
            elif kind == "open":
                run(rep, case, E, {"args": n}, [])
            elif kind == "input":
                run(rep, case, E, {}, [["input", "list", [n]]])
            elif kind == "input2":
                run(rep, case, E, {}, [["input", "gen", [n, 5, n]]])
            elif kind == "prompt":
                run(rep, case, E, {}, [["prompt", n]])
            else:
                run(rep, case, E, {}, [["meta", n]])
    elif kind == "optopen":
        for n in range(0, 1700, 1 if big else 7):
            run(rep, case, case[1], dict(OPTS[case[2]], args=n), [])
    elif kind == "items":
        form, part = case[1], case[2]
        ls = [0, 1, 300, 799, 850, 851, 870, 871, 872, 900, 916, 917, 918, 938, 939, 940, 1300] if big else [0, 860, 918, 939, 1300]
        for k in (1, 2, 3):
            for i, t in enumerate(itertools.product(ls, repeat=k)):
                if not big or i % 4 == part:
                    run(rep, case, 3000, {}, [["input", form, list(t)]])
        for t in itertools.product([0, 400, 900], repeat=4):
            if part == 0:
                run(rep, case, 3000, {}, [["input", form, list(t)]])
    elif kind == "real":
        E, proto = case[1], case[2]
        real = E or 153600
        if proto != "2.1" and real == 153600:
            real = 512000
        pay = real * 3 // 4
        for n in (10, pay // 2, pay + 1000, 2 * pay) if big else (10, pay + 1000):
            run(rep, case, E, {}, [["script", n]], proto=proto)
            run(rep, case, E, {}, [["input", "list", [n, 7]]], proto=proto)
            run(rep, case, E, {}, [["prompt", n]], proto=proto)
        for n in range(pay - 2600, pay - 900, 13 if big else 211):
            run(rep, case, E, {}, [["input", "list", [n]]], proto=proto)
        run(rep, case, E, {"args": pay + 1000}, [["script", pay]], proto=proto)
        run(rep, case, E, {"args": 153600}, [["script", 153600], ["input", "gen", [pay, 3, pay]]], proto=proto)
        run(rep, case, E, {"configuration_name": "Microsoft.PowerShell.Workflow.Long.Configuration.Name"}, [["script", pay], ["input", "list", [pay]]], proto=proto)
    elif kind == "hist":
        f = OPS[case[1]]
        for k in (1, 2, 3):
            for rest in itertools.product(OPS if k < 3 or big else OPS[1:10:2], repeat=k - 1):
                run(rep, case, 3000, {}, [f] + list(rest))
        if big:
            small = OPS[1:9:2]
            for rest in itertools.product(small, repeat=4):
                run(rep, case, 3000, {"args": 1200}, [f] + list(rest))
    elif kind == "hundreds":
        run(rep, case, 3000, {}, [["input", "gen", [3] * case[1]], ["script", 5], ["prompt", 2]])
        run(rep, case, 3000, {}, [["script", 5]] * 5 + [["min"], ["max"]] * (case[1] // 2) + [["input", "list", [3, 900]]])
    else:
        for n in range(0, 1700, 17):
            run(rep, case, 3000, {}, [["input", "gen", [n, n]], ["script", n]], ids="server")
    rep.sample({"case": case})
