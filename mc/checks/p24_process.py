"""P24: process output, exit code and input are exact however they are delivered."""
import itertools
import os

from mc import server, winrs
from mc.core import need, same

PROP = "P24"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of the server's delivery schedules (every output sequence x every split into responses x every placement of timed-out polls, exit code and final state), of interleavings of two processes, of shell option subsets, of input and signal sequences, of shell lifecycles and of the ways the server addresses and describes the new shell, on the real WinRS and Process classes"
LEVEL_NOTE = "Complete within: 3 chunks (thorough 4) over 6 chunk kinds, all compositions into responses, timeouts in every subset of gaps (for 4 chunks, and for 3 in quick: one gap or every gap), 6 ways of ending (for 3 chunks in quick half of them per split); two processes with all interleavings of their polls; all 2^10 shell option subsets; all operation sequences of length 4 (thorough 5) on two processes; all lifecycle sequences of length 5 (thorough 6); 4 selector sets by all 2^6 subsets of shell details, once and reopened."
RULE = "one evaluation = one delivery schedule, option subset or operation sequence; non-trivial when output arrives in more than one response, or several options, or several operations"
ASSUMPTIONS = ["the server reports the final state last", "End and skip-shell flags are xs:boolean read case-insensitively, as Windows does"]

CHUNKS = [("stdout", b"a"), ("stdout", b""), ("stderr", b"x"), ("stdout", b"\xff\x00\r\n"), ("stdout", None), ("stderr", None)]
ENDS = ["with", "after", "code-early", "code-first", "nostate", "never"]
RCS = [0, 1, -1, 255, 4294967295, -1073741510]


def compositions(n):
    if n == 0:
        yield []
        return
    for cut in itertools.product((0, 1), repeat=n - 1):
        parts, run = [], 1
        for c in cut:
            if c:
                parts.append(run)
                run = 1
            else:
                run += 1
        yield parts + [run]


def schedule(seq, parts, end, rc):
    """the responses without timeouts"""
    groups, i = [], 0
    for p in parts:
        groups.append(list(seq[i:i + p]))
        i += p
    rs = [(g, "Running", None) for g in groups]
    if end == "with":
        if rs:
            rs[-1] = (rs[-1][0], "Done", rc)
        else:
            rs = [([], "Done", rc)]
    elif end == "after":
        rs.append(([], "Done", rc))
    elif end == "code-early":
        if rs:
            rs[-1] = (rs[-1][0], "Running", rc)
        else:
            rs.append(([], "Running", rc))
        rs.append(([], "Done", None))
    elif end == "code-first":
        rs = [([], "Running", rc)] + rs + [([], "Done", None)]
    elif end == "nostate":
        rs = [(g, None, None) for g, _, _ in rs] + [([], "Pending", None), ([], "Done", rc)]
    elif end == "never":
        rs.append(([], "Done", None))
    return rs


def with_timeouts(rs, mask):
    out = []
    for i, r in enumerate(rs):
        if mask >> i & 1:
            out.append("timeout")
        out.append(r)
    return out


def expect(seq, end, rc):
    return (b"".join(d for n, d in seq if n == "stdout" and d), b"".join(d for n, d in seq if n == "stderr" and d), None if end == "never" else rc)


def start(script=None, **kw):
    srv = winrs.CmdServer(script, **{k: kw.pop(k) for k in list(kw) if k in ("idle", "reply_uri", "more", "details")}).install(horizon=600)
    from pypsrp.shell import WinRS
    ckw = {k: kw.pop(k) for k in list(kw) if k in ("max_envelope_size",)}
    return srv, WinRS(server.connection(**ckw), **kw)


def clean(srv):
    need(not srv.errors, "request the server cannot accept: %s" % (srv.errors[:2],), "requests")
    need(not srv.oversize, "request over the envelope limit: %s" % (srv.oversize[:2],), "oversize")
    for sh in srv.order:
        same(sh.deleted, 1, "number of deletes of shell %s" % sh.id, "delete")


def seen(p):
    return (bytes(p.stdout), bytes(p.stderr), p.rc)


def run_output(case, rep):
    _, first, n, mode = case
    from pypsrp.shell import CommandState, Process
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    for rest in itertools.product(CHUNKS, repeat=max(0, n - 1)):
        seq = ((CHUNKS[first],) + rest) if n else ()
        for parts in compositions(len(seq)):
            for ei, end in enumerate(ENDS):
                if n == 3 and not thorough and (ei + len(parts)) % 2:
                    continue
                for ri, rc in enumerate(RCS if n <= 1 else [RCS[(first + ei + len(parts)) % len(RCS)]]):
                    rs = schedule(seq, parts, end, rc)
                    every = n <= 2 or thorough and n == 3
                    masks = range(1 << len(rs)) if every else [1 << (first + ei) % len(rs) if (len(parts) + first) % 2 else (1 << len(rs)) - 1]
                    for mask in masks:
                        def go():
                            srv, shell = start(lambda c: with_timeouts(rs, mask))
                            with shell:
                                p = Process(shell, "cmd", ["/c"])
                                if mode == "invoke":
                                    p.invoke()
                                else:
                                    p.begin_invoke()
                                    polls = 0
                                    while p.state != CommandState.DONE:
                                        p.poll_invoke(timeout=1 + polls % 2)
                                        polls += 1
                                        need(polls <= 40, "the process never finishes", "finish")
                                    same(polls, len(with_timeouts(rs, mask)), "number of polls until done", "polls")
                            same(seen(p), expect(seq, end, rc), "stdout, stderr and exit code", "output")
                            same(p.state, CommandState.DONE, "state", "state")
                            clean(srv)
                            need(not next(iter(srv.order[0].commands.values())).script, "responses left unread", "unread")
                            return seen(p), len(rs) > 1
                        rep.execute(go, case=list(case) + [list(seq), parts, end, rc, mask])


RUNS = {"plain": [([("stdout", b"1"), ("stderr", b"2")], "Running", None), ([("stdout", b"3")], "Done", 0)],
        "split": [([("stdout", b"ab")], "Running", None), "timeout", ([("stdout", b"c")], "Running", 7), ([], "Done", None)],
        "silent": [([], "Done", 3)],
        "nocode": [([("stderr", b"bad")], "Done", None)]}
WANT = {"plain": (b"13", b"2", 0), "split": (b"abc", b"", 7), "silent": (b"", b"", 3), "nocode": (b"", b"bad", None)}


def run_reuse(case, rep):
    """the same Process object invoked up to three times, in one shell or in a new one each time"""
    _, length = case
    from pypsrp.shell import Process
    for names in itertools.product(sorted(RUNS), repeat=length):
        for reopen in (False, True):
            def go():
                todo = list(names)
                srv, shell = start(lambda c: RUNS[todo.pop(0)])
                p = Process(shell, "cmd")
                got = []
                if not reopen:
                    shell.open()
                for nme in names:
                    if reopen:
                        shell.open()
                    p.invoke()
                    got.append(seen(p))
                    if reopen:
                        shell.close()
                shell.close()
                same(got, [WANT[x] for x in names], "outcome of each run", "reuse")
                clean(srv)
                return tuple(got), length > 1
            rep.execute(go, case=list(case) + [names, reopen])


def run_two(case, rep):
    """two processes, in one shell or two, polled in every order"""
    _, a, b, shells = case
    from pypsrp.shell import CommandState, Process
    na, nb = len(RUNS[a]), len(RUNS[b])
    for pos in itertools.combinations(range(na + nb), na):
        for early in (False, True):
            def go():
                srv, s1 = start(lambda c: RUNS[c.executable])
                s2 = s1
                if shells == 2:
                    from pypsrp.shell import WinRS
                    s2 = WinRS(s1.wsman)
                s1.open()
                s2.open()
                p, q = Process(s1, a), Process(s2, b)
                if early:
                    p.begin_invoke()
                    q.begin_invoke()
                started = {p, q} if early else set()
                for i in range(na + nb):
                    x = p if i in pos else q
                    if x not in started:
                        x.begin_invoke()
                        started.add(x)
                    x.poll_invoke()
                same([seen(p), seen(q)], [WANT[a], WANT[b]], "outcomes of the two processes", "two")
                same([p.state, q.state], [CommandState.DONE] * 2, "states", "two-state")
                s1.close()
                s2.close()
                clean(srv)
                return (seen(p), seen(q)), True
            rep.execute(go, case=list(case) + [list(pos), early])


OPTS = [("codepage", [65001, 437]), ("environment", [{"A": "1", "b<&\"\r": " x\u00e9\r\n "}, {}]), ("idle_time_out", [60, 7200]), ("lifetime", [10, 3600]), ("name", ["my <shell> & co", "\u00fc"]), ("no_profile", [True, False]),
        ("working_directory", ["C:\\temp & more", "/tmp"]), ("input_streams", ["stdin", "stdin pr"]), ("output_streams", ["stdout stderr", "stdout"]), ("id", ["AAAAAAAA-0000-4000-8000-000000000001", "other id"])]


def check_options(sh, kw, base, extra):
    want = {"InputStreams": kw.get("input_streams", "stdin"), "OutputStreams": kw.get("output_streams", "stdout stderr")}
    for k, tag, f in (("idle_time_out", "IdleTimeOut", "PT%sS"), ("lifetime", "Lifetime", "PT%sS"), ("name", "Name", "%s"), ("working_directory", "WorkingDirectory", "%s")):
        if k in kw:
            want[tag] = f % kw[k]
    same(sh.fields, want, "shell settings the server was sent", "fields")
    env = kw.get("environment")
    same(sorted(sh.env or []), sorted((env or {}).items()), "environment the server was sent", "environment")
    same(sh.asked_id, kw.get("id"), "shell id asked for", "id")
    want = [(n, v) for n, v in base]
    if kw.get("no_profile"):
        want.append(("WINRS_NOPROFILE", "TRUE"))
    if "codepage" in kw:
        want.append(("WINRS_CODEPAGE", str(kw["codepage"])))
    same(sorted((n, v if n != "WINRS_NOPROFILE" else v.upper()) for n, v, _ in sh.options), sorted(want), "options the server was sent", "options")
    same([t for _, t in sh.extra], extra, "extra open content", "extra")


def run_options(case, rep):
    _, low = case
    import xml.etree.ElementTree as ET
    from pypsrp.shell import Process
    from pypsrp.wsman import OptionSet
    for high in range(1 << (len(OPTS) - 3)):
        mask = high << 3 | low
        vi = bin(mask).count("1") % 2
        for v in ((vi,) if mask & (mask - 1) else (0, 1)):
            kw = {n: vals[v] for i, (n, vals) in enumerate(OPTS) if mask >> i & 1}
            for how in ("with", "base"):
                def go():
                    k2 = dict(kw)
                    if (mask >> 5) & 1:
                        k2["resource_uri"] = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/other&" + str(v)
                    srv, shell = start(idle="PT%s.000S" % kw["idle_time_out"] if "idle_time_out" in kw else None, reply_uri=bool(mask & 1), **k2)
                    base, extra = [], []
                    if how == "with":
                        with shell:
                            Process(shell, "x").invoke()
                            shell.open()
                    else:
                        o = OptionSet()
                        o.add_option("MINE", "1")
                        o.add_option("OTHER", "2", {"MustComply": "true"})
                        base = [("MINE", "1"), ("OTHER", "2")]
                        e = ET.Element("{urn:x}more")
                        e.text = "content"
                        extra = ["content"]
                        shell.open(base_options=o, open_content=e)
                        need(len(o.values) == 2, "the caller's option set was changed: %r" % (o,), "base-options")
                        Process(shell, "x").invoke()
                        shell.close()
                    same(len(srv.order), 1, "number of shells created", "creates")
                    check_options(srv.order[0], kw, base, extra)
                    same(srv.order[0].uri, k2.get("resource_uri", winrs.CMD), "resource uri", "uri")
                    clean(srv)
                    return (mask, how), bool(mask)
                rep.execute(go, case=list(case) + [high, v, how])


DETAILS = [("Owner", "owner", "D\\me & <you>"), ("ClientIP", "client_ip", "::1"), ("ShellRunTime", "shell_run_time", "P0DT0H0M1S"), ("ShellInactivity", "shell_inactivity", "P0DT0H0M0S"), ("OutputStreams", "output_streams", "stdout"), ("IdleTimeOut", "idle_time_out", "PT7200.000S")]
MORE = [(), ((False, "Node", "n 1"),), ((True, "Node", "n<&>"),), ((True, "A", "1"), (False, "B", "\u00e9"))]


def run_address(case, rep):
    """every request for a shell is addressed with all the selectors the server gave it, and the shell has the
    details the server replied with"""
    _, mi = case
    from pypsrp.shell import Process
    from pypsrp.shell import WinRS
    for mask in range(1 << len(DETAILS)):
        for again in (False, True):
            def go():
                given = [d for i, d in enumerate(DETAILS) if mask >> i & 1]
                srv, shell = start(lambda c: [([("stdout", b"1")], "Running", None), ([], "Done", 0)], more=MORE[mi], details=[(t, x) for t, _, x in given])
                plain = {a: getattr(WinRS(shell.wsman), a) for _, a, _ in DETAILS}
                for _ in range(2 if again else 1):
                    with shell:
                        same({a: getattr(shell, a) for _, a, _ in DETAILS}, dict(plain, **{a: x for _, a, x in given}), "details of the shell", "details")
                        p = Process(shell, "x")
                        p.begin_invoke()
                        p.send(b"in")
                        p.signal(codes()["C"])
                        p.end_invoke()
                        same(p.stdout, b"1", "output", "address-output")
                same(len(srv.order), 2 if again else 1, "number of shells", "address-shells")
                clean(srv)
                return (mi, mask), bool(MORE[mi])
            rep.execute(go, case=list(case) + [mask, again])


EXES = ["cmd", "C:\\Program Files\\a b.exe", "<&>\"'", "\u00fcn\u0130 \U0001f600"]
ARGS = ["", "a\r\nb\tc\r", "b c", "/c \"x\" & y", "<&>'\"", "\u00e9\U0001f600", " lead", "%PATH%"]


def run_commandline(case, rep):
    _, ei = case
    from pypsrp.shell import Process
    for args in [None] + [list(a) for n in range(3) for a in itertools.product(ARGS, repeat=n)]:
        for no_shell in (False, True):
            def go():
                srv, shell = start()
                before = None if args is None else list(args)
                with shell:
                    p = Process(shell, EXES[ei], args, no_shell=no_shell)
                    p.invoke()
                c = next(iter(srv.order[0].commands.values()))
                same((c.executable, c.arguments, c.skip_shell), (EXES[ei], args or [], str(no_shell).lower()), "command line the server was sent", "commandline")
                same(args, before, "the caller's arguments", "arguments")
                same(p.id, c.id, "command id", "command-id")
                clean(srv)
                return (c.executable, tuple(c.arguments)), bool(args)
            rep.execute(go, case=list(case) + [args, no_shell])


def codes():
    from pypsrp.shell import SignalCode
    return {"C": SignalCode.CTRL_C, "B": SignalCode.CTRL_BREAK, "T": SignalCode.TERMINATE}


SIG = {"C": "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/signal/ctrl_c", "B": "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/signal/ctrl_break", "T": "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/signal/Terminate"}
OPS = [("send", b"in", False), ("send", b"", False), ("send", b"\xff\x00", True), ("send", b"", True), ("signal", "C"), ("signal", "T"), ("poll",)]


def run_input(case, rep):
    """all sequences of sends, signals and polls over two processes of one shell"""
    _, length, first = case
    from pypsrp.shell import Process
    ops = [(w,) + o for w in (0, 1) for o in OPS]
    for rest in itertools.product(range(len(ops)), repeat=length - 1):
        seq = [ops[first]] + [ops[r] for r in rest]
        ended, skip = set(), False
        for o in seq:                      # no input after the end of input
            if o[1] == "send":
                skip |= o[0] in ended
                if o[3]:
                    ended.add(o[0])
        if skip:
            continue

        def go():
            srv, shell = start(lambda c: [([("stdout", c.id[:8].encode())], "Running", None)] * length + [([], "Done", 5)])
            cs = codes()
            with shell:
                ps = [Process(shell, "a"), Process(shell, "b")]
                for p in ps:
                    p.begin_invoke()
                want = [([], [], 0), ([], [], 0)]
                for o in seq:
                    p, w = ps[o[0]], want[o[0]]
                    if o[1] == "send":
                        p.send(o[2], end=o[3])
                        w[0].append(("stdin", o[2], o[3]))
                    elif o[1] == "signal":
                        p.signal(cs[o[2]])
                        w[1].append(SIG[o[2]])
                    else:
                        p.poll_invoke()
                        want[o[0]] = (w[0], w[1], w[2] + 1)
                for p in ps:
                    p.end_invoke()
            for p, w in zip(ps, want):
                c = srv.order[0].commands[p.id]
                same((c.inputs, c.signals), w[:2], "input and signals the command received", "input")
                same(seen(p), (c.id[:8].encode() * length, b"", 5), "outcome", "input-output")
            same([srv.order[0].commands[p.id].executable for p in ps], ["a", "b"], "which command is which", "input-which")
            clean(srv)
            return len(srv.log), length > 1
        rep.execute(go, case=list(case) + [list(rest)])


def run_much(case, rep):
    """a lot of output on both streams, in many or few pieces"""
    _, mode, size, pieces = case
    from pypsrp.shell import CommandState, Process
    for which in (("stdout",), ("stderr",), ("stdout", "stderr")):
        def go():
            seq = [(which[i % len(which)], bytes((j * 3 + i + j // 255) % 256 for j in range(size))) for i in range(pieces)]
            rs = [([x], "Running", None) for x in seq] + [([], "Done", 259)]
            if mode == "joined":
                rs = [(seq, "Done", 259)]
            srv = winrs.CmdServer(lambda c: list(rs)).install(horizon=pieces * 2 + 600)
            from pypsrp.shell import WinRS
            with WinRS(server.connection()) as shell:
                p = Process(shell, "cmd")
                p.invoke()
            need(seen(p) == expect(seq, "with", 259), "%d pieces of %d bytes arrive as %r" % (pieces, size, [len(p.stdout), len(p.stderr), p.rc]), "output")
            same(p.state, CommandState.DONE, "state", "state")
            clean(srv)
            return [len(p.stdout), len(p.stderr)], True
        rep.execute(go, case=list(case) + [which])


def run_large(case, rep):
    _, envelope = case
    from pypsrp.shell import Process
    probe = winrs.CmdServer().install()
    size = server.connection(max_envelope_size=envelope).max_payload_size
    del probe
    for mult in (1, 2, 3):
        for d in [-130, -70] + list(range(-66, 3)) + [100] if size < 50000 else [-66, -65, -64, -63, -1, 0, 1]:
            n = size * mult + d
            for end in (False, True):
                def go():
                    srv, shell = start(max_envelope_size=envelope)
                    data = bytes((i * 7 + i // 251) % 256 for i in range(n))
                    with shell:
                        p = Process(shell, "a")
                        p.begin_invoke()
                        p.send(data, end=end)
                        p.send(b"", end=True) if not end else None
                        p.end_invoke()
                    c = srv.order[0].commands[p.id]
                    need(b"".join(x for _, x, _ in c.inputs) == data, "the command received other bytes (%d of %d)" % (sum(len(x) for _, x, _ in c.inputs), n), "large")
                    same([e for _, _, e in c.inputs], [False] * (len(c.inputs) - 1) + [True], "end marks", "large-end")
                    clean(srv)
                    return len(c.inputs), True
                rep.execute(go, case=list(case) + [n, end])


class Mine(Exception):
    pass


LIFE = ["open", "close", "with", "raise", "run"]


def run_life(case, rep):
    _, length, first, idle = case
    from pypsrp.shell import Process
    for rest in itertools.product(LIFE, repeat=length - 1):
        seq = (LIFE[first],) + rest

        def go():
            srv, shell = start(idle="PT60.000S" if idle else None, idle_time_out=60 if idle else None)
            opened, creates = False, 0
            for o in seq:
                if o in ("open", "with", "raise") and not opened:
                    creates += 1
                if o == "open":
                    shell.open()
                    opened = True
                elif o == "close":
                    shell.close()
                    opened = False
                elif o == "with":
                    with shell:
                        need(shell.opened, "not open inside the with block", "life")
                        Process(shell, "a").invoke()
                    opened = False
                elif o == "raise":
                    try:
                        with shell:
                            raise Mine()
                    except Mine:
                        pass
                    else:
                        need(False, "the caller's exception was swallowed", "swallowed")
                    opened = False
                elif opened:
                    p = Process(shell, "a")
                    p.invoke()
                    same(p.rc, 0, "exit code", "life-rc")
                same(bool(shell.opened), opened, "whether the shell is open after %s" % o, "life-open")
                same(len(srv.order), creates, "shells created after %s" % o, "life-creates")
                same(sum(s.deleted for s in srv.order), creates - (1 if opened else 0), "shells deleted after %s" % o, "life-deletes")
            shell.close()
            clean(srv)
            for sh in srv.order:
                same(sh.fields.get("IdleTimeOut") in ((None,) if not idle else ("PT60S", "PT60.000S")), True, "idle timeout %r sent" % (sh.fields.get("IdleTimeOut"),), "life-idle")
            return (len(srv.log), creates), length > 1
        rep.execute(go, case=list(case) + [list(rest)])


def cases(tier):
    t = tier == "thorough"
    c = []
    for mode in ("invoke", "poll"):
        for n in range(1, 5 if t else 4 if mode == "invoke" else 3):
            c += [("output", f, n, mode) for f in range(len(CHUNKS))]
        c.append(("output", 0, 0, mode))
    c.sort(key=lambda x: -x[2])
    c += [("options", i) for i in range(8)]
    L = 5 if t else 4
    c += [("input", n, f) for n in range(L - 1, 0, -1) for f in range(14)]
    c += [("life", n, f, i) for n in range(L + 1, 0, -1) for f in range(len(LIFE)) for i in (False, True) if t or n <= L or i]
    c += [("commandline", i) for i in range(len(EXES))]
    c += [("large", e) for e in ((4096, 16384, 153600) if not t else (2048, 4096, 8192, 16384, 153600, 512000))]
    c += [("two", a, b, s) for a in sorted(RUNS) for b in sorted(RUNS) for s in (1, 2)]
    c += [("reuse", n) for n in (1, 2, 3)]
    c += [("much", m, size, pieces) for m in ("each", "joined") for size, pieces in ((1, 3000), (700, 400), (70000, 4), (1500000, 1))]
    c += [("address", i) for i in range(len(MORE))]
    return c


def run_case(case, rep):
    {"output": run_output, "reuse": run_reuse, "two": run_two, "options": run_options, "commandline": run_commandline, "input": run_input, "large": run_large, "much": run_much, "life": run_life, "address": run_address}[case[0]](case, rep)
