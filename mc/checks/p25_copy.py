"""P25: a copied file arrives byte for byte or the copy fails."""
import base64
import builtins
import hashlib
import itertools
import os
import shutil
import tempfile
import warnings

import requests

from mc import clixml, core, drive, env, server, wire
from mc.core import need, same
from mc.server import Fault, Raw

PROP = "P25"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of file lengths around the chunk boundaries per envelope size, of the server's answers (outputs, errors, warnings, final state in every order), of the request that fails x how, of local read failures and of changes of the file at every request, on the real Client.copy against a reference of the receiving script"
LEVEL_NOTE = "Complete over all lengths 0..20 and k*chunk-6..k*chunk+6 for k=1,2 (thorough k<=4) at five envelope sizes, all answer sequences of up to three messages x four final states, every request position x seven failure kinds, every change of the source at every request for five kinds of change. The receiving PowerShell script itself is modelled, not run."
RULE = "one evaluation = one copy; non-trivial when the file needs more than one message or the server or the file misbehaves"
ASSUMPTIONS = ["a reply to Receive that is lost on the wire is not sent again by the server: the client may wait for it", "the reference receiver does what copy.ps1 says: everything but the last input is data, the last input is the SHA-1 of it", "a file that changes while it is copied may arrive in either form as long as the checksum sent is that of the data sent"]

PATH = "C:\\temp\\file \u00e9.txt"


class CopyServer(server.ScriptServer):
    """receives like copy.ps1"""
    plan = None          # None: verify and answer; else the list of messages to answer
    on_request = None
    stored = None
    verdict = None

    def before(self, req):
        if self.on_request:
            self.on_request(len(self.log) - 1, req)

    def on_pipe_message(self, sh, p, m):
        if m.type != wire.END_OF_INPUT:
            return
        items = []
        for b in p.inputs:
            v = clixml.decode(b)
            if not isinstance(v, tuple) or v[0] != "S":
                self.errors.append("an input is not a string")
            items.append(clixml.plain(v))
        self.items = items
        try:
            blobs = [base64.b64decode(i, validate=True) for i in items]
        except Exception as e:
            self.errors.append("input is not base64: %s" % e)
            blobs = [b"", b""]
        data, given = b"".join(blobs[:-1]), blobs[-1] if blobs else b""
        self.verdict = hashlib.sha1(data).hexdigest().encode() == given
        if self.verdict:
            self.stored = data
        plan = self.plan
        if plan is None:
            plan = [("out", PATH), "done"] if self.verdict else ["failed"]
        for a in plan:
            self.send(sh, p, *ANSWER(a))


def ANSWER(a):
    if isinstance(a, tuple):
        return wire.OUTPUT, "<S>%s</S>" % clixml.escape(a[1])
    if a == "error":
        return wire.ERROR, clixml.error_record("it broke", "Err,Fq")
    if a == "warning":
        return wire.WARNING, clixml.info_record("WarningRecord", "careful")
    if a == "failed":
        return wire.PIPE_STATE, clixml.pipeline_state(5, "Transport failure, hash mismatch")
    if a == "failed-bare":
        return wire.PIPE_STATE, clixml.pipeline_state(5)
    if a == "stopped":
        return wire.PIPE_STATE, clixml.pipeline_state(3, "stopped")
    return wire.PIPE_STATE, clixml.pipeline_state(4)


def client(**kw):
    from pypsrp.client import Client
    return Client("srv", ssl=True, auth="basic", username="u", password="p", **kw)


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="p25-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def file(self, data, name="src.bin"):
        p = os.path.join(self.d, name)
        with open(p, "wb") as f:
            f.write(data)
        return p


def content(n, kind):
    if kind == "zero":
        return bytes(n)
    if kind == "ff":
        return b"\xff" * n
    return bytes((i * 131 + (i >> 8) * 17 + 7) & 255 for i in range(n))


def run(srv, path, dest="dest", **kw):
    """(result or exception, warnings)"""
    copy_kw = {k: kw.pop(k) for k in list(kw) if k in ("configuration_name", "expand_variables")}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        c = client(**kw)
        try:
            r = ("ok", c.copy(path, dest, **copy_kw))
        except core.Violation:
            raise
        except Exception as e:
            r = ("raise", e)
        return r, [str(x.message) for x in w if "careful" in str(x.message)], c


def judge_wire(srv, sent_ok=True):
    need(not srv.errors, "request the server cannot accept: %s" % (srv.errors[:2],), "requests")
    need(not srv.oversize, "request over the envelope limit: %s" % (srv.oversize[:2],), "oversize")


ENVELOPES = [("2.3", {}), ("2.1", {}), ("2.3", {"max_envelope_size": 4096}), ("2.3", {"max_envelope_size": 8192}), ("2.1", {"max_envelope_size": 20000})]
SMALL = [2, 3, 4]


def probe(proto, kw):
    """chunk size the client uses: the length of the first data input of a long file"""
    with Tmp() as t:
        srv = CopyServer().install()
        srv.protocol = proto
        run(srv, t.file(content(600000 if not kw else 40000, "mix")), **dict(kw))
        return len(base64.b64decode(srv.items[0]))


def run_sizes(case, rep):
    _, ei, group = case
    proto, kw = ENVELOPES[ei]
    chunk = probe(proto, kw)
    need(chunk > 0, "no data was sent", "probe")
    if group == "small":
        todo = [(n, k) for n in range(21) for k in ("mix", "zero", "ff")]
    elif group == "huge":
        todo = [(2 ** 20 + 1, "mix"), (3 * 2 ** 20 + 77, "mix")]
    else:
        todo = [(int(group * chunk) + d, "mix") for d in range(-6, 7)]
    for n, kind in todo:
        def go():
            with Tmp() as t:
                data = content(n, kind)
                path = t.file(data)
                srv = CopyServer().install(horizon=3000)
                srv.protocol = proto
                r, _, _ = run(srv, path, dest="C:\\d<&>\u00fc", expand_variables=bool(n % 2), configuration_name="Conf.Name" if n % 3 == 0 else "Microsoft.PowerShell", **dict(kw))
                judge_wire(srv)
                if r[0] == "raise":
                    raise r[1]
                same(r[1], PATH, "returned path", "path")
                need(srv.verdict, "the checksum sent is not that of the data sent", "checksum")
                need(srv.stored == data, "the server received other bytes (%d instead of %d)" % (len(srv.stored), n), "bytes")
                sh = next(iter(srv.shells.values()))
                need(sh.closed, "the pool was left on the server", "closed")
                need(sh.uri.endswith("/Conf.Name" if n % 3 == 0 else "/Microsoft.PowerShell"), "configuration %s" % sh.uri, "configuration")
                p = next(iter(sh.pipes.values()))
                need(p.input_ended, "end of input was not sent", "end")
                args = arguments(p)
                same(args, ["C:\\d<&>\u00fc", bool(n % 2)], "arguments of the receiving script", "arguments")
                with open(path, "rb") as f:
                    need(f.read() == data, "the source was changed", "source")
                return (n, len(srv.items)), len(srv.items) > 2
        rep.execute(go, case=list(case) + [n, kind])


def arguments(p):
    ps = clixml.plain(p.created)
    out = []
    try:
        cmd = ps["PowerShell"]["Cmds"][0]
        for a in cmd["Args"]:
            out.append(a.get("V"))
    except (KeyError, TypeError) as e:
        raise core.HarnessError("create-pipeline layout: %r" % (ps,)) from e
    return out


MSGS = ["error", "warning", ("out", PATH), ("out", "Z:\\other")]
FINAL = ["done", "failed", "failed-bare", "stopped"]


def run_warned(case, rep):
    """however many warnings the server gives, each reaches the caller, and the copy stands"""
    for n in (0, 1, 5, 6, 7, 50, 300):
        def go():
            with Tmp() as t:
                srv = CopyServer().install(horizon=2000)
                srv.plan = ["warning"] * n + [("out", PATH), "done"]
                r, warned, _ = run(srv, t.file(b"hello"), max_envelope_size=8192)
                judge_wire(srv)
                if r[0] == "raise":
                    raise r[1]
                same(r[1], PATH, "returned path", "answer-path")
                same(len(warned), n, "warnings shown", "answer-warnings")
                return n, n > 0
        rep.execute(go, case=list(case) + [n])


def run_answers(case, rep):
    _, n, first = case
    for seq in itertools.product(MSGS, repeat=n):
        if n and seq[0] != MSGS[first]:
            continue
        for final in FINAL:
            for lag in (False, True):
                def go():
                    with Tmp() as t:
                        srv = CopyServer().install()
                        srv.plan = list(seq) + [final]
                        if lag:
                            hold = [0]
                            orig = srv.take

                            def take(req, q):
                                hold[0] += 1
                                if hold[0] % 2:
                                    return []
                                return orig(req, q)
                            srv.take = take
                        r, warned, _ = run(srv, t.file(b"hello"), max_envelope_size=8192)
                        judge_wire(srv)
                        outs = [m[1] for m in seq if isinstance(m, tuple)]
                        success = final == "done" and "error" not in seq and outs
                        if success:
                            if r[0] == "raise":
                                raise r[1]
                            same(r[1], outs[-1], "returned path", "answer-path")
                            same(len(warned), seq.count("warning"), "warnings shown", "answer-warnings")
                        else:
                            need(r[0] == "raise", "copy returned %r although the server answered %r" % (r[1], list(seq) + [final]), "answer-ignored")
                        need(all(s.closed for s in srv.shells.values()), "the pool was left on the server", "closed")
                        return (r[0], seq, final), True
                rep.execute(go, case=list(case) + [seq, final, lag])


KINDS = {"fault": lambda: Fault(server.ACCESS_DENIED), "fault-quota": lambda: Fault(2150859173), "500": lambda: Raw(500, b"", {}), "401": lambda: Raw(401, b"", {}), "html": lambda: Raw(200, b"<html>", {"Content-Type": "text/html"}), "conn": lambda: requests.ConnectionError("cut"), "read": lambda: requests.ReadTimeout("slow")}


def run_faults(case, rep):
    _, kind, n, after = case
    with Tmp() as t:
        path = t.file(content(n, "mix"))
        srv = CopyServer().install()
        run(srv, path, max_envelope_size=8192)
        actions = srv.actions()
    for at in range(len(actions)):
        if kind == "read" and after and actions[at] == "Receive":
            continue

        def go():
            with Tmp() as t:
                path = t.file(content(n, "mix"))
                srv = CopyServer().install()
                hit = []

                def fail(i, req):
                    if i == at:
                        hit.append(req.action)
                        if not after:
                            raise KINDS[kind]()
                srv.on_request = fail
                if after:
                    orig = srv.after

                    def aft(req, body):
                        if len(srv.log) - 1 == at:
                            raise KINDS[kind]()
                        return orig(req, body)
                    srv.after = aft
                r, _, _ = run(srv, path, max_envelope_size=8192)
                need(hit, "the request was not made", "harness")
                if kind == "read" and hit[0] == "Receive":          # asked again: allowed to recover, never to differ
                    need(r[0] == "raise" or (r[1] == PATH and srv.stored == content(n, "mix")), "copy returned %r" % (r[1],), "fault-ignored")
                    return (at, r[0], "asked again"), True
                need(not srv.oversize, "over the envelope limit", "oversize")
                if hit[0] != "Delete":
                    need(r[0] == "raise", "copy returned %r although request %d (%s) failed" % (r[1], at, hit[0]), "fault-ignored")
                    need(not isinstance(r[1], core.HarnessError), str(r[1]), "harness")
                    created = [i for i, q in enumerate(srv.log) if q.action == "Create"]
                    if created and not (at == created[0]):
                        need("Delete" in [q.action for q in srv.log[at + 1:]], "the pool was not removed after the failure of %s" % hit[0], "cleanup")
                return (at, r[0]), True
        rep.execute(go, case=list(case) + [at])


CHANGES = ["grow1", "growchunk", "half", "empty", "rewrite", "gone"]


def change(path, how, data, chunk):
    if how == "gone":
        os.remove(path) if os.path.exists(path) else None
        return
    new = {"grow1": data + b"!", "growchunk": data + content(chunk, "ff"), "half": data[:len(data) // 2], "empty": b"", "rewrite": data[::-1]}[how]
    with open(path, "r+b" if os.path.exists(path) else "wb") as f:
        f.truncate(0)
        f.write(new)


def run_changes(case, rep):
    _, how, mult = case
    kw = {"max_envelope_size": 8192}
    chunk = probe("2.3", kw)
    n = int(chunk * mult)
    with Tmp() as t:
        path = t.file(content(n, "mix"))
        srv = CopyServer().install()
        run(srv, path, **dict(kw))
        total = len(srv.log)
    for at in range(total):
        def go():
            with Tmp() as t:
                data = content(n, "mix")
                path = t.file(data)
                srv = CopyServer().install()
                srv.on_request = lambda i, req: change(path, how, data, chunk) if i == at else None
                r, _, _ = run(srv, path, **dict(kw))
                judge_wire(srv)
                if r[0] == "ok":
                    same(r[1], PATH, "returned path", "path")
                    need(srv.verdict and srv.stored is not None, "copy returned although nothing was stored", "change-verdict")
                    if how in ("grow1", "growchunk", "half", "empty"):
                        forms = [data, {"grow1": data + b"!", "growchunk": data + content(chunk, "ff"), "half": data[:len(data) // 2], "empty": b""}[how]]
                        ok = srv.stored in forms
                        if how in ("half", "empty"):      # what was read before, then the end of the shorter file
                            ok = ok or data.startswith(srv.stored)
                        need(ok, "copy returned but the server holds %d bytes that were never the file" % len(srv.stored), "change-bytes")
                return (at, r[0], srv.verdict), True
        rep.execute(go, case=list(case) + [at])


def run_reads(case, rep):
    """the n-th read of the source, or opening it, fails"""
    _, nth, n = case

    def go():
        with Tmp() as t:
            data = content(n, "mix")
            path = t.file(data)
            srv = CopyServer().install()
            real = builtins.open
            count = [0]

            class F:
                def __init__(self, f):
                    self.f = f

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    self.f.close()

                def __getattr__(self, a):
                    return getattr(self.f, a)

                def read(self, *a):
                    count[0] += 1
                    if count[0] == nth:
                        raise OSError(5, "Input/output error")
                    return self.f.read(*a)

            def fake(name, *a, **k):
                b = os.fsencode(name) if isinstance(name, (str, bytes)) else b""
                if b == os.fsencode(path):
                    if nth == 0:
                        count[0] = 1
                        raise PermissionError(13, "denied")
                    return F(real(name, *a, **k))
                return real(name, *a, **k)
            builtins.open = fake
            try:
                r, _, _ = run(srv, path, max_envelope_size=8192)
            finally:
                builtins.open = real
            if count[0] < max(nth, 1):
                need(r[0] == "ok" or isinstance(r[1], core.HarnessError), "failed without a fault: %r" % (r[1],), "reads-plain")
                return (nth, "not reached"), False
            need(r[0] == "raise", "copy returned %r although reading the file failed" % (r[1],), "read-ignored")
            need(isinstance(r[1], OSError) or "Input/output" in str(r[1]), "the read failure is hidden: %r" % (r[1],), "read-hidden")
            need(all(s.closed for s in srv.shells.values()), "the pool was left on the server", "closed")
            return (nth, type(r[1]).__name__), True
    rep.execute(go, case=case)


def run_paths(case, rep):
    """how the source is named: expansion only when asked for, missing files and directories"""
    with Tmp() as t:
        t.file(b"one", "a b.txt")
        t.file(b"two", "$X-%Y%~.txt")
        os.environ["P25_DIR"] = t.d
        home = os.environ.get("HOME")
        os.environ["HOME"] = t.d
        uml = t.file(b"three", "\u00fc.txt")
        tests = [(t.d + "/a b.txt", False, b"one"), (t.d + "/a b.txt", True, b"one"), ("$P25_DIR/a b.txt", True, b"one"), ("${P25_DIR}/a b.txt", True, b"one"), ("$P25_DIR/a b.txt", False, None), ("~/a b.txt", True, b"one"), ("~/a b.txt", False, None),
                 (t.d + "/$X-%Y%~.txt", False, b"two"), (uml, False, b"three"), (t.d + "/missing", False, None), (t.d, False, None), (t.d + "/missing", True, None)]
        for src, exp, want in tests:
            def go():
                srv = CopyServer().install()
                r, _, _ = run(srv, src, expand_variables=exp, max_envelope_size=8192)
                judge_wire(srv)
                if want is None:
                    need(r[0] == "raise", "copy of %r returned %r" % (src, r[1]), "path-missing")
                    need(srv.stored is None, "something was stored", "path-stored")
                else:
                    if r[0] == "raise":
                        raise r[1]
                    need(srv.stored == want, "stored %r" % (srv.stored,), "path-bytes")
                    same(arguments(next(iter(next(iter(srv.shells.values())).pipes.values()))), ["dest", exp], "arguments", "arguments")
                return (exp, r[0]), True
            rep.execute(go, case=["paths", src.replace(t.d, "<dir>"), exp])
        del os.environ["P25_DIR"]
        if home is not None:
            os.environ["HOME"] = home


def run_twice(case, rep):
    """several copies over one client, with failed ones in between"""
    _, length = case
    for seq in itertools.product(("good", "empty", "failed", "fault", "missing"), repeat=length):
        def go():
            with Tmp() as t:
                srv = CopyServer().install(horizon=2000)
                c = client(max_envelope_size=8192)
                for i, what in enumerate(seq):
                    data = b"" if what == "empty" else b"data%d" % i * 50
                    path = t.file(data, "f%d" % i)
                    if what == "missing":
                        path += "x"
                    srv.plan = ["failed"] if what == "failed" else None
                    srv.stored = None
                    base = len(srv.log)

                    def fail(k, req):
                        if what == "fault" and req.action == "Command":
                            raise Fault(server.ACCESS_DENIED)
                    srv.on_request = fail
                    try:
                        r = c.copy(path, "dest%d" % i)
                    except core.Violation:
                        raise
                    except Exception as e:
                        need(what in ("failed", "fault", "missing"), "copy %d (%s) failed: %r" % (i, what, e), "twice")
                    else:
                        need(what in ("good", "empty"), "copy %d (%s) returned %r" % (i, what, r), "twice-ignored")
                        need(srv.stored == data, "copy %d stored %r" % (i, srv.stored), "twice-bytes")
                judge_wire(srv)
                need(all(s.closed for s in srv.shells.values()), "a pool was left on the server", "closed")
                c.close()
                return seq, length > 1
        rep.execute(go, case=list(case) + [seq])


def cases(tier):
    t = tier == "thorough"
    c = []
    for ei in range(len(ENVELOPES)):
        big = ei < 2
        for k in ([1, 2, 3, 4, 0.5] if t else [1] if ei == 0 else [1, 2]):
            c.append(("sizes", ei, k))
    for ei in range(len(ENVELOPES)):
        c.append(("sizes", ei, "small"))
    c.append(("sizes", 1, "huge"))
    c += [("answers", n, f) for n in ((3, 2, 1, 0) if not t else (4, 3, 2, 1, 0)) for f in range(len(MSGS) if n else 1)]
    c += [("faults", k, n, a) for k in KINDS for n in (0, 100, 20000) for a in (False, True)]
    c += [("changes", h, m) for h in CHANGES for m in ((0.1, 1, 2.5) if not t else (0.1, 1, 2, 2.5, 4))]
    c += [("reads", i, n) for i in range(0, 8) for n in (0, 100, 10000)]
    c += [("warned",), ("paths",)] + [("twice", n) for n in ((1, 2, 3) if not t else (1, 2, 3, 4))]
    return c


def run_case(case, rep):
    {"sizes": run_sizes, "answers": run_answers, "warned": run_warned, "faults": run_faults, "changes": run_changes, "reads": run_reads, "paths": run_paths, "twice": run_twice}[case[0]](case, rep)
