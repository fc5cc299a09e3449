"""P16: merge requests and version-dependent features follow what was asked and what was negotiated."""
import itertools
import os

from mc import clixml, core, drive, server, wire
from mc.core import need, same

PROP = "P16"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of merge-call sequences at every negotiated version around the thresholds on the real client against a small state model, judged on the decoded create-pipeline message, and of all pairs of versions over a part alphabet for the comparison"
LEVEL_NOTE = "Complete over all merge-call sequences over 32 calls up to length 2 at seven negotiated versions and up to length 3 at 2.3 (thorough: all), all placements of two calls on three commands, and all version pairs of up to three parts."
RULE = "one evaluation = one merge sequence on one command, or one version pair; non-trivial when some call was accepted or a comparison made"
ASSUMPTIONS = ["a Command object the caller constructs is given the pool's protocol version"]

STREAM = ["error", "warning", "verbose", "debug", "information"]
MIN = {"error": (), "warning": (2, 2), "verbose": (2, 2), "debug": (2, 2), "information": (2, 3)}
PROP_OF = {"error": "MergeError", "warning": "MergeWarning", "verbose": "MergeVerbose", "debug": "MergeDebug", "information": "MergeInformation"}
VALUE = {"none": 0, "output": 1, "null": 8}
VERSIONS = ["2.1", "2.2", "2.3", "2.0", "2.10", "3.0", "2.2.1"]
OPS = [(m, t) for m in STREAM for t in ("none", "output", "null", "bogus")] + [("all", t) for t in ("none", "output", "null", "error")] + [("previous", True), ("previous", False), ("reset", None)] + \
      [(m, None) for m in STREAM]


def vtuple(v):
    t = tuple(int(x) for x in v.split("."))
    while t and t[-1] == 0:
        t = t[:-1]
    return t


class Model:
    def __init__(self, version):
        self.v = vtuple(version)
        self.s = {m: 0 for m in STREAM}
        self.prev = 0

    def has(self, m):
        return self.v >= MIN[m]

    def apply(self, op):
        """True when the call is accepted.  None: may be either."""
        m, t = op
        if m == "previous":
            self.prev = 3 if t else 0
            return True
        if m == "reset":
            self.prev = 0
            for x in STREAM:
                self.s[x] = 0
            return True
        if m == "all":
            if t not in ("none", "output"):
                return False
            for x in STREAM:
                if self.has(x):
                    self.s[x] = VALUE[t]
            return True
        t = "none" if t is None else t
        if t not in VALUE or (m == "error" and t == "null") or not self.has(m):
            return False
        self.s[m] = VALUE[t]
        return True

    def expected(self):
        e = {"MergePreviousResults": self.prev, "MergeMyResult": 2 if self.s["error"] else 0, "MergeToResult": self.s["error"]}
        for m in STREAM:
            if m == "error":
                if self.v >= (2, 2):
                    e["MergeError"] = self.s[m]
            elif self.has(m):
                e[PROP_OF[m]] = self.s[m]
        return e


def real(ps, op):
    m, t = op
    if m == "previous":
        return ps.merge_previous(t)
    if m == "reset":
        return ps.merge_reset()
    f = getattr(ps, "merge_" + m)
    return f() if t is None else f(t)


NAMES = {0: "None", 1: "Output", 2: "Error", 8: "Null"}


def merges(node):
    out = {}
    for k, v in node.ms.items():
        if k.startswith("Merge"):
            if v == ("Nil",):
                continue
            need(isinstance(v, clixml.Node) and v.value[0] == "I32", "%s is %r" % (k, v), "encoding of a merge flag")
            same(v.types[0], "System.Management.Automation.Runspaces.PipelineResultTypes", "type of %s" % k)
            n = v.value[1]
            want = "Output, Error" if n == 3 else NAMES.get(n)
            need(v.tostring == want, "%s is %d but reads %r" % (k, n, v.tostring), "text and value of a merge flag disagree")
            out[k] = n
    return out


def newpool(version):
    s = server.FullServer(protocol=version)
    s.install(horizon=10 ** 9)
    p = drive.pool()
    p.open()
    need(p.protocol_version == version, "negotiated %r, server said %s" % (p.protocol_version, version), "negotiated version")
    return s, p


def created_cmds(s, ps):
    sh = list(s.shells.values())[0]
    pipe = {k.upper(): v for k, v in sh.pipes.items()}[ps.id.upper()]
    m = pipe.created.ms["PowerShell"].ms
    x = m.get("ExtraCmds")
    need(x is None or x == ("Nil",), "one statement sent as %r" % (x,), "one statement sent as several")
    return m["Cmds"].cont[1]


def batch(s, p, version, seqs, own):
    """Each sequence on a command of its own, all in one pipeline; `own`: commands constructed by the caller."""
    from pypsrp.complex_objects import Command
    from pypsrp.powershell import PowerShell
    ps = PowerShell(p)
    ms = []
    for i, q in enumerate(seqs):
        m = Model(version)
        if own:
            ps.add_command(Command("C%d" % i, protocol_version=version, is_script=False))
        elif i % 2:
            ps.add_script("C%d" % i)
        else:
            ps.add_cmdlet("C%d" % i)
        for j, op in enumerate(q):
            want = m.apply(op)
            try:
                r = real(ps, op)
                got = True
                need(r is ps, "merge call returns %r" % (r,), "merge call does not return the pipeline")
            except core.Violation:
                raise
            except Exception as e:
                from pypsrp.exceptions import InvalidPSRPOperation
                got = False
                need(want is not False or isinstance(e, InvalidPSRPOperation), "%s at %s raises %s: %s" % (op, version, type(e).__name__, e), "refusal is not the documented error")
            need(want == got, "%s after %s at version %s is %s" % (op, q[:j], version, "accepted" if got else "refused"), "merge call accepted or refused wrongly")
        ms.append((q, m))
    ps.begin_invoke()
    same(s.errors, [], "server errors")
    cs = created_cmds(s, ps)
    same(len(cs), len(seqs), "commands")
    for c, (q, m) in zip(cs, ms):
        g, w = merges(c), m.expected()
        need(g == w, "at version %s, %s sends %s, expected %s" % (version, q, g, w), "merge flags sent differ from those asked for")
    list(s.shells.values())[0].pipes.clear()
    p.pipelines.clear()
    del s.log[:]
    return (version, own, seqs), True


def placed(s, p, version, ops):
    """Calls placed on commands of one pipeline touch only the last command at that moment, also across pipelines."""
    from pypsrp.powershell import PowerShell
    ps, other = PowerShell(p), PowerShell(p)
    other.add_cmdlet("Other")
    om = Model(version)
    ms = []
    for op in ops:
        if op == "new":
            ps.add_cmdlet("C")
            ms.append(Model(version))
        elif op == "other":
            other.merge_error("output")
            om.apply(("error", "output"))
        elif ms:
            w = ms[-1].apply(op)
            try:
                real(ps, op)
            except Exception:
                need(not w, "%s refused" % (op,), "merge call accepted or refused wrongly")
        else:
            try:
                real(ps, op)
            except Exception:
                pass
            else:
                need(False, "%s without a command is accepted" % (op,), "merge call without a command is accepted")
    for x, mm in ((other, [om]), (ps, ms)):
        if not mm:
            continue
        x.begin_invoke()
        for i, (c, m) in enumerate(zip(created_cmds(s, x), mm)):
            g, w = merges(c), m.expected()
            need(g == w, "command %d of %s sends %s, expected %s" % (i, ops, g, w), "merge flag reaches another command")
    list(s.shells.values())[0].pipes.clear()
    p.pipelines.clear()
    del s.log[:]
    return (version, ops), bool(ms)


PARTS = [0, 1, 2, 3, 9, 10]


def versions(maxparts):
    out = []
    for n in range(1, maxparts + 1):
        for t in itertools.product(PARTS, repeat=n):
            out.append(".".join(map(str, t)))
    return out


def compare(a, b):
    from pypsrp._utils import version_equal_or_newer
    got = version_equal_or_newer(a, b)
    want = vtuple(a) >= vtuple(b)
    need(bool(got) == want, "is %s at least %s: %s" % (a, b, got), "versions not compared numerically part by part")
    return (a, b), True


def negotiated(v):
    """Every feature threshold as a caller sees it at a negotiated version."""
    from pypsrp.exceptions import InvalidPSRPOperation
    from pypsrp.powershell import PowerShell
    s, p = newpool(v)
    t = vtuple(v)
    for m in STREAM:
        ps = PowerShell(p)
        ps.add_cmdlet("A")
        try:
            getattr(ps, "merge_" + m)("output")
            ok = True
        except InvalidPSRPOperation:
            ok = False
        same(ok, t >= MIN[m], "merge_%s at %s accepted" % (m, v), "feature threshold of merging")
    ps = PowerShell(p)
    ps.add_cmdlet("A").add_script("B").merge_all("output")
    ps.begin_invoke()
    same(s.errors, [], "server errors")
    for c, o in zip(created_cmds(s, ps), (0, 1)):
        m = Model(v)
        if o:
            m.apply(("all", "output"))
        same(merges(c), m.expected(), "merge flags at %s" % v, "merge flags for the negotiated version")
    n = len(s.log)
    try:
        p.reset_runspace_state()
        ok = True
    except InvalidPSRPOperation:
        ok = False
    need(ok == (t >= (2, 3)), "reset_runspace_state at %s: %s" % (v, ok), "feature threshold of resetting the runspace")
    need(ok or len(s.log) == n, "a refused reset reaches the server", "a refused reset reaches the server")
    return (v,), True


def cases(tier):
    out = []
    for v in VERSIONS:
        for i in range(len(OPS)):
            out.append(["seq", v, i])
    for v in ("2.1", "2.2", "2.3"):
        for i in range(len(PLACE)):
            out.append(["placed", v, i])
    vs = versions(3)
    for i in range(0, len(vs), 16):
        out.append(["compare", i])
    small = [v for v in versions(2) + ["2.2.0", "2.2.9", "2.1.99", "2.3.0", "2.2.10.1", "02.3", "2.03", "10.0.0.1", "1.99", "2.02.1"] if "." in v]
    for i in range(0, len(small), 8):
        out.append(["negotiated", small[i:i + 8]])
    return out


PLACE = ["new", "other", ("error", "output"), ("all", "output"), ("previous", True), ("reset", None), ("warning", "null"), ("information", "output")]


def run_case(case, rep):
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    k = case[0]
    if k == "seq":
        v = case[1]
        s, p = newpool(v)
        first = OPS[case[2]]
        for own in (False, True):
            rep.execute(lambda: batch(s, p, v, [()] + [(first, a) for a in OPS] + [(first,), ()], own), case=case, choices=lambda: [own])
            if v == "2.3" or thorough:
                for a in OPS:
                    if own and not thorough:
                        continue
                    rep.execute(lambda: batch(s, p, v, [(first, a, b) for b in OPS] + [()], own), case=case, choices=lambda: [own, a])
    elif k == "placed":
        s, p = newpool(case[1])
        pre = (PLACE[case[2]],)
        for n in range(5 if thorough else 4 if case[1] == "2.3" else 3):
            for t in itertools.product(PLACE, repeat=n):
                rep.execute(lambda: placed(s, p, case[1], pre + t), case=case, choices=lambda: pre + t)
    elif k == "compare":
        vs = versions(3)
        for a in vs[case[1]:case[1] + 16]:
            for b in vs:
                rep.execute(lambda: compare(a, b), case=case, choices=lambda: [a, b])
    else:
        for v in case[1]:
            rep.execute(lambda: negotiated(v), case=case, choices=lambda: v)
