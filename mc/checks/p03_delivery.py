"""P03: what a caller sees does not depend on how the server's messages are cut, batched, interleaved or delayed; damage is an error."""
import base64
import itertools

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P03"
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of fragment cuts, response groupings, fragment interleavings, empty and timed-out polls and single-fragment damage on the real client against the unsplit run"
LEVEL_NOTE = ("Complete for every single cut of every message of the conversation, every pair of cuts of a multi-byte message, every grouping, one message of 66000 fragments, object ids that agree in some of their bytes, and every interleaving of the listed "
              "fragment sets, and all delivery schedules up to the stated number of deviations; assumes the reference server sends what MS-PSRP allows.")
RULE = "one evaluation = one session with one way of cutting, grouping, delaying, interleaving or damaging the server's fragments; non-trivial when at least one message is cut or delayed"
ASSUMPTIONS = ["a dropped last fragment, a first fragment repeated after its message ended, a repeated whole one-fragment message and a truncated transport blob are outside (nothing in the stream shows them)"]

MULTI = "aé€𝄞\U0001f600\r\nz<&>_x0041_"
SCRIPT = [
    (wire.OUTPUT, clixml.S(MULTI)),
    (wire.WARNING, clixml.info_record("Warning", "wärn")),
    (wire.OUTPUT, "<I32>42</I32>"),
    (wire.ERROR, clixml.error_record("bad €")),
    (wire.VERBOSE, clixml.info_record("Verbose", "verb")),
    (wire.DEBUG, clixml.info_record("Debug", "deb")),
    (wire.PROGRESS, clixml.progress("act")),
    (wire.INFORMATION, clixml.information("info")),
    (wire.OUTPUT, '<Obj RefId="0"><TN RefId="0"><T>A</T></TN><MS><S N="P">v</S><Obj N="L" RefId="1"><LST><I32>1</I32><Nil /></LST></Obj></MS></Obj>'),
    (wire.PIPE_STATE, clixml.pipeline_state(4)),
]
WANT = ([MULTI, "42"], ["bad €"], ["wärn"], ["verb"], ["deb"])
SHORT = [(wire.OUTPUT, clixml.S("é1")), (wire.OUTPUT, clixml.S("€2")), (wire.PIPE_STATE, clixml.pipeline_state(4))]
NPOOL = 3
NPIPE = len(SCRIPT)


class Srv(server.ScriptServer):
    """Cut plans by message number; a plan orders the queued fragments into responses."""

    def __init__(self, script=None, cuts=None, size=None, group="each", rearrange=None):
        super().__init__(script or SCRIPT)
        self.cuts, self.size, self.group, self.rearrange = cuts or {}, size, group, rearrange
        self.n = 0
        self.sent = {}
        self.ids = lambda k: k + 1

    def send(self, sh, pipe, mtype, body, frag_size=None, oid=None):
        k = self.n
        self.n += 1
        sh.oid = self.ids(k)
        raw = wire.message(mtype, body, sh.rpid or wire.NIL, pipe.pid if pipe is not None and pipe.pid else wire.NIL, bom=self.bom)
        frs = wire.split(sh.oid, raw, self.cuts.get(k) or self.size or 32000)
        self.sent[k] = frs
        if self.rearrange is None or k < NPOOL:
            (pipe or sh).out.extend(frs)
        elif mtype == wire.PIPE_STATE:
            pipe.out.extend(self.rearrange([self.sent[i] for i in range(NPOOL, self.n)]))
        return frs

    def receive(self, req, sh, p):
        q = (p or sh).out
        self.joined = True
        blobs = self.take(req, q)
        if blobs is None:
            return self.stream_body([], p)
        if not blobs:
            raise server.Fault(server.TIMEDOUT, "timed out")
        return self.stream_body(blobs, p)

    def take(self, req, q):
        if not q:
            return []
        if self.group == "each":
            return [q.popleft()]
        if self.group == "streams":
            out = list(q)
            q.clear()
            return out
        if self.group == "joined":
            out = b"".join(q)
            q.clear()
            return [out]
        if self.group == "pairs":
            return [b"".join(q.popleft() for _ in range(min(2, len(q))))]
        if self.group == "many":
            return [b"".join(q.popleft() for _ in range(min(512, len(q))))]
        if self.group == "ctx":
            return self.schedule(q)
        raise core.HarnessError(self.group)

    def schedule(self, q):
        # 0: one fragment; 1: time out; 2: empty answer; then j more fragments, as separate Stream elements or joined
        opts = ["one", "timeout", "empty"]
        for j in sorted({2, min(len(q), 6)} - {1} if len(q) > 1 else ()):
            opts += [("streams", j), ("joined", j)]
        o = self.ctx.pick(opts, "receive")
        if o == "one":
            return [q.popleft()]
        if o == "timeout":
            return []
        if o == "empty":
            return None
        out = [q.popleft() for _ in range(o[1])]
        return out if o[0] == "streams" else [b"".join(out)]


def session(s, horizon=3000, script=True):
    from pypsrp.powershell import PowerShell
    s.install(horizon=horizon)
    p = drive.pool()
    p.open()
    same(int(p.state), 2, "pool state after open")
    same(p.protocol_version, s.protocol, "negotiated protocol version")
    same(drive.freeze(p.application_private_data.data if hasattr(p.application_private_data, "data") else None) is not None, True, "application private data")
    app = drive.freeze(p.application_private_data)
    ps = PowerShell(p)
    ps.add_script("x")
    ps.invoke()
    return app, drive.result(ps), ps


_REF = {}


def reference(which):
    if which not in _REF:
        s = Srv(SCRIPT if which == "full" else SHORT)
        s.group = "each"
        app, res, ps = session(s)
        if which == "full":
            t = drive.texts(ps)
            same((t[0][:2], t[1], t[2], t[3], t[4]), WANT, "unsplit run")
            same((len(t[0]), len(t[5]), len(t[6])), (3, 1, 1), "unsplit run record counts")
        _REF[which] = (app, res)
    return _REF[which]


def lengths():
    """Raw length of every server message of the full conversation."""
    s = Srv(SCRIPT)
    session(s)
    return [sum(len(f) - 21 for f in s.sent[k]) for k in range(NPOOL + NPIPE)]


def cases(tier):
    out = [["sched", n] for n in (1, 2, 0)]
    for k in range(NPOOL + NPIPE):
        for g in ("each", "streams", "joined"):
            out.append(["cut1", k, g])
    for part in range(8):
        out.append(["cut2", part])
    out += [["uniform", g, bom] for g in ("each", "streams", "joined", "pairs") for bom in (True, False)]
    out += [["interleave", k, g] for k in range(len(INTER)) for g in ("each", "streams", "joined", "pairs")]
    out += [["damage", g] for g in ("each", "streams", "joined", "pairs")]
    out += [["runs", n] for n in ((700,) if tier != "thorough" else (700, 66500))]
    out += [["ids", b] for b in BASES] + [["long", 66000]] + ([["long", 131100]] if tier == "thorough" else [])
    return out


BASES = [0, 250, 65530, 2 ** 31 - 6, 2 ** 32 - 6, 2 ** 63 - 6]
STRIDES = [1, 2 ** 8, 2 ** 16, 2 ** 32, 2 ** 56]
INTER = [(3, 3), (1, 4), (4, 1), (2, 2, 2), (2, 5)]


def check(s, which, case, rep, nontrivial=True):
    def fn():
        app, res, ps = session(s)
        ref = reference(which)
        same(app, ref[0], "application private data", "application private data differs")
        same(res, ref[1], "what the caller sees", "result differs from the unsplit run")
        same(s.errors, [], "server errors")
        return ("same", which), nontrivial
    return rep.execute(fn, case=case, choices=lambda: [s.cuts and sorted(s.cuts.items()), s.size, s.group, s.bom])


def merges(counts):
    """All interleavings of len(counts) sequences, as tuples of sequence numbers."""
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[i] -= 1
            for m in merges(rest):
                yield (i,) + m


def run_case(case, rep):
    import os
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    kind = case[0]
    if kind == "cut1":
        k = case[1]
        n = lengths()[k]
        for off in range(1, n):
            if not thorough and ("each", "streams", "joined")[off % 3] != case[2]:
                continue
            check(Srv(cuts={k: [off]}, group=case[2]), "full", case, rep)
            rep.note(("cut", k, off, case[2]))
    elif kind == "cut2":
        s0 = Srv(SHORT)
        session(s0)
        n = sum(len(f) - 21 for f in s0.sent[NPOOL])
        prs = list(itertools.combinations(range(1, n), 2))
        for i, (a, b) in enumerate(prs):
            if i % 8 == case[1]:
                check(Srv(SHORT, cuts={NPOOL: [a, b]}, group=("each", "joined", "streams", "pairs")[(i // 8) % 4]), "short", case, rep)
                rep.note(("cut2", a, b))
    elif kind == "uniform":
        for size in (list(range(1, 700)) if thorough else list(range(1, 48, 3)) + [64, 100, 128, 200, 255, 256, 257, 400, 600]):
            if size < 8 and case[1] in ("each", "pairs") and not (thorough and size > 2):
                continue
            s = Srv(size=size, group=case[1])
            s.bom = case[2]
            check(s, "full", case, rep)
            rep.note(("size", size, case[1], case[2]))
    elif kind == "sched":
        sets = [dict(cuts={3: [20, 45], 4: [41]}), dict(cuts={0: [50], 1: [100], 3: [41, 42]}), dict(cuts={3: [10, 20, 30, 40, 50]})]

        def body(ctx):
            s = Srv(SHORT, group="ctx", **sets[case[1]])
            s.ctx = ctx
            app, res, ps = session(s)
            ref = reference("short")
            same((app, res), ref, "what the caller sees", "result differs from the unsplit run")
            return ("same", tuple(ctx.choices)), any(ctx.choices)
        core.explore(body, rep, bound=4 if thorough else 2, cap=400000, case=case)
    elif kind == "interleave":
        counts = INTER[case[1]]
        texts = ["é%d" % i for i in range(len(counts))]
        script = [(wire.OUTPUT, clixml.S(t)) for t in texts] + [(wire.PIPE_STATE, clixml.pipeline_state(4))]
        cutmap = {NPOOL + i: [41 + 5 * j for j in range(1, c)] for i, c in enumerate(counts)}
        for order in merges(list(counts)):
            def fn(order=order):
                def rearr(msgs):
                    its = [iter(m) for m in msgs[:-1]]
                    return [next(its[i]) for i in order] + msgs[-1]
                s = Srv(script, cuts=cutmap, group=case[2], rearrange=rearr)
                app, res, ps = session(s)
                same(sorted(ps.output), sorted(texts), "interleaved outputs", "interleaved messages are not all delivered whole")
                starts = sorted(range(len(counts)), key=order.index)
                ends = sorted(range(len(counts)), key=lambda i: len(order) - order[::-1].index(i))
                if starts == ends:
                    same(ps.output, [texts[i] for i in starts], "order of interleaved outputs")
                same(int(ps.state), 4, "state")
                return ("inter", order), order != tuple(sorted(order))
            rep.execute(fn, case=case, choices=lambda: list(order))
    elif kind == "damage":
        texts = ["aaaaaé", "bbbbb€"]
        script = [(wire.OUTPUT, clixml.S(t)) for t in texts] + [(wire.PIPE_STATE, clixml.pipeline_state(4))]
        for nf in (2, 3, 4, 5):
            cutmap = {NPOOL: [10 * j for j in range(1, nf)], NPOOL + 1: [41]}
            muts = [("drop", i) for i in range(nf - 1)] + [("dup", i, j) for i in range(nf) for j in range(i + 1, nf + 2)] + \
                   [("swap", i, j) for i in range(nf) for j in range(i + 1, nf)]
            for mu in muts:
                def fn(mu=mu):
                    def rearr(msgs):
                        fl = list(itertools.chain(*msgs[:-1]))
                        if mu[0] == "drop":
                            del fl[mu[1]]
                        elif mu[0] == "dup":
                            fl.insert(min(mu[2], len(fl)), fl[mu[1]])
                        else:
                            fl[mu[1]], fl[mu[2]] = fl[mu[2]], fl[mu[1]]
                        return fl + msgs[-1]
                    s = Srv(script, cuts=cutmap, group=case[1], rearrange=rearr)
                    from pypsrp.powershell import PowerShell
                    s.install(horizon=300)
                    p = drive.pool()
                    p.open()
                    ps = PowerShell(p)
                    ps.add_script("x")
                    err = None
                    try:
                        ps.invoke()
                    except Exception as e:
                        err = e
                    need(err is not None or mu[0] == "dup" and mu[1] == 0 and mu[2] >= nf, "fragments damaged by %s raised no error; output %r" % (mu, ps.output), "damaged fragments accepted (%s)" % mu[0])
                    for o in ps.output:
                        need(o in texts, "the caller got %r, which the server never sent" % (o,), "altered message delivered")
                    return ("error", nf, mu, type(err).__name__), True
                rep.execute(fn, case=case, choices=lambda: [nf, list(mu)])
    elif kind == "ids":
        # two messages in pieces, interleaved, whose ids agree in some of their bytes
        texts = ["aaaaa\u00e9", "bbbbb\u20ac"]
        script = [(wire.OUTPUT, clixml.S(t)) for t in texts] + [(wire.PIPE_STATE, clixml.pipeline_state(4))]
        for stride in STRIDES:
            for order in merges([3, 3]):
                for group in ("each", "joined"):
                    def fn():
                        def rearr(msgs):
                            its = [iter(m) for m in msgs[:-1]]
                            return [next(its[i]) for i in order] + msgs[-1]
                        s = Srv(script, cuts={NPOOL: [10, 41], NPOOL + 1: [20, 43]}, group=group, rearrange=rearr)
                        s.ids = lambda k: case[1] + 1 + k * stride
                        app, res, ps = session(s)
                        first = 0 if order.index(0) < order.index(1) else 1
                        last = 0 if order[::-1].index(0) < order[::-1].index(1) else 1
                        want = texts if last == 1 else texts[::-1]
                        same(sorted(ps.output), sorted(texts), "interleaved outputs", "interleaved messages are not all delivered whole")
                        if first != last:
                            same(ps.output, want, "order of interleaved outputs")
                        return ("ids", stride, order, group), True
                    rep.execute(fn, case=case, choices=lambda: [stride, list(order), group])
    elif kind == "long":
        # one message in more fragments than two bytes can number
        def fn():
            text = "".join(chr(0x61 + i % 26) for i in range(case[1] - 100))
            script = [(wire.OUTPUT, clixml.S(text)), (wire.PIPE_STATE, clixml.pipeline_state(4))]
            s = Srv(script, group="many", cuts={NPOOL: range(1, case[1] - 53)})
            app, res, ps = session(s)
            need(ps.output == [text], "a message of %d fragments arrives as %s" % (len(s.sent[NPOOL]), core.short(ps.output)), "long message altered")
            need(len(s.sent[NPOOL]) >= case[1] - 60, "harness: %d fragments" % len(s.sent[NPOOL]), "harness")
            return ("long", case[1]), True
        rep.execute(fn, case=case)
    elif kind == "runs":
        # a run of fragments of a long message is missing, or two of them far apart have changed places
        total = case[1]
        text = "".join(chr(0x61 + i % 26) for i in range(total))
        script = [(wire.OUTPUT, clixml.S(text)), (wire.PIPE_STATE, clixml.pipeline_state(4))]
        gaps = [1, 2, 127, 128, 255, 256, 257, 511, 512, 513] + ([65535, 65536] if total > 66000 else [])
        for at in (1, 2, 100):
            for gap in gaps:
                for how in ("drop", "swap", "none"):
                    def fn():
                        def rearr(msgs):
                            fl = list(msgs[0])
                            if how == "drop":
                                del fl[at:at + gap]
                            elif how == "swap":
                                fl[at], fl[at + gap] = fl[at + gap], fl[at]
                            return fl + list(itertools.chain(*msgs[1:]))
                        s = Srv(script, group="many", cuts={NPOOL: range(1, total)}, rearrange=rearr)
                        from pypsrp.powershell import PowerShell
                        s.install(horizon=3000)
                        p = drive.pool()
                        p.open()
                        ps = PowerShell(p)
                        ps.add_script("x")
                        err = None
                        try:
                            ps.invoke()
                        except Exception as e:
                            err = e
                        if how == "none":
                            need(err is None and ps.output == [text], "an unchanged long message is refused: %r" % err, "long message altered")
                        else:
                            need(err is not None, "%d fragments %sped at %d raised no error" % (gap, how, at), "damaged fragments accepted (%s)" % how)
                            same(ps.output, [], "output of a damaged message", "altered message delivered")
                        return ("runs", at, gap, how), True
                    if how != "none" or (at, gap) == (1, 1):
                        rep.execute(fn, case=case, choices=lambda: [at, gap, how])
    else:
        raise core.HarnessError(kind)
