"""P26: a fetched file is complete and verified before it replaces the destination."""
import base64
import hashlib
import itertools
import os
import resource
import shutil
import signal
import sys
import tempfile

import requests

from mc import clixml, core, server, wire
from mc.core import need, same
from mc.server import Fault, Raw

PROP = "P26"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of contents and chunkings, of every single change to the list of outputs, of the failing request x how, and of a failure at every local file operation (audit events of the interpreter) and after every written byte (file size limit), observing the destination at each step, on the real Client.fetch"
LEVEL_NOTE = "Complete over all contents of up to 3 bytes from 4 byte values with all chunkings, longer contents across several fragments, 14 kinds of damage at every output position, every request position x seven failure kinds, every file operation and every write size for contents of up to 40 bytes (thorough 200), with the destination absent, present, a symbolic link or a directory. The sending PowerShell script is modelled, not run."
RULE = "one evaluation = one fetch; non-trivial when an answer, request or file operation misbehaves or the data comes in several parts"
ASSUMPTIONS = ["the checksum of a damaged file never happens to be right", "a file operation fails by raising, a write may be cut short", "a reply to Receive that is lost on the wire is not sent again by the server", "when deleting the temporary file itself fails it may stay"]

OLD = b"the previous content of the destination"


class FetchServer(server.ScriptServer):
    messages = ()
    on_request = None

    def before(self, req):
        if self.on_request:
            self.on_request(len(self.log) - 1, req)

    def on_pipe_message(self, sh, p, m):
        if m.type == wire.CREATE_PIPELINE:
            for mt, body in self.messages:
                self.send(sh, p, mt, body)


def out(text):
    return wire.OUTPUT, "<S>%s</S>" % clixml.escape(text)


DONE = (wire.PIPE_STATE, clixml.pipeline_state(4))


def outputs(parts):
    return [base64.b64encode(p).decode() for p in parts] + [hashlib.sha1(b"".join(parts)).hexdigest()]


class Tmp:
    """scratch folders for the destination and for temporary files"""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="p26-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.dest_dir, self.tmp_dir = os.path.join(self.d, "dest"), os.path.join(self.d, "tmp")
        os.mkdir(self.dest_dir)
        os.mkdir(self.tmp_dir)
        self.saved = tempfile.tempdir
        tempfile.tempdir = self.tmp_dir
        self.dest = os.path.join(self.dest_dir, "file.bin")
        return self

    def __exit__(self, *a):
        tempfile.tempdir = self.saved
        shutil.rmtree(self.d)

    def prepare(self, kind):
        self.kind = kind
        self.real = self.dest
        if kind == "present":
            self.put(self.dest)
        elif kind == "link":
            self.real = os.path.join(self.d, "target.bin")
            self.put(self.real)
            os.symlink(self.real, self.dest)
        self.before = sorted(os.listdir(self.dest_dir))

    def put(self, p):
        with open(p, "wb") as f:
            f.write(OLD)

    def content(self):
        if not os.path.exists(self.real):
            return None
        with open(self.real, "rb") as f:
            return f.read()

    def old(self):
        return None if self.kind == "absent" else OLD

    def litter(self):
        names = set(os.listdir(self.dest_dir)) - {"file.bin"}
        return sorted(names) + sorted(os.listdir(self.tmp_dir)) + sorted(set(os.listdir(self.d)) - {"dest", "tmp", "target.bin"})


def client(**kw):
    from pypsrp.client import Client
    return Client("srv", ssl=True, auth="basic", username="u", password="p", max_envelope_size=8192, **kw)


def attempt(t, srv, **kw):
    c = client()
    try:
        c.fetch("C:\\remote", t.dest, **kw)
        return "ok"
    except (core.Violation, core.HarnessError):
        raise
    except Exception as e:
        return e


def failed(t, r, what, key):
    need(r != "ok", "fetch returned although %s" % what, key + "-ignored")
    need(t.content() == t.old(), "the destination changed although %s: %r" % (what, (t.content() or b"")[:60]), key + "-destination")
    same(t.litter(), [], "files left behind after %s" % what, key + "-litter")


def succeeded(t, r, want, key):
    if r != "ok":
        raise r
    need(t.content() == want, "the destination holds %r" % ((t.content() or b"")[:60],), key + "-bytes")
    same(t.litter(), [], "files left behind", key + "-litter")


def clean(srv):
    need(not srv.errors, "request the server cannot accept: %s" % (srv.errors[:2],), "requests")
    need(all(s.closed for s in srv.shells.values()), "the pool was left on the server", "closed")


def chunkings(data):
    n = len(data)
    if n == 0:
        return [[], [b""]]
    res = []
    for cut in itertools.product((0, 1), repeat=n - 1):
        parts, cur = [], data[:1]
        for i, c in enumerate(cut):
            if c:
                parts.append(cur)
                cur = b""
            cur += data[i + 1:i + 2]
        res.append(parts + [cur])
    return res


def script(t):
    p = next(iter(next(iter(t.shells.values())).pipes.values()))
    ps = clixml.plain(p.created)
    return [a.get("V") for a in ps["PowerShell"]["Cmds"][0]["Args"]]


def run_contents(case, rep):
    _, n, dest = case
    for tup in itertools.product((0, 10, 0x41, 0xff), repeat=n):
        data = bytes(tup)
        for parts in chunkings(data):
            def go():
                with Tmp() as t:
                    t.prepare(dest)
                    srv = FetchServer().install()
                    srv.messages = [out(o) for o in outputs(parts)] + [DONE]
                    r = attempt(t, srv, expand_variables=bool(n % 2))
                    succeeded(t, r, data, "contents")
                    same(script(srv), ["C:\\remote", bool(n % 2)], "arguments of the sending script", "arguments")
                    clean(srv)
                    need((t.kind == "link") == os.path.islink(t.dest), "the link itself was replaced", "link")
                    return (data, len(parts)), len(parts) != 1
            rep.execute(go, case=list(case) + [list(data), [len(p) for p in parts]])


def run_sizes(case, rep):
    _, n, frag = case
    for dest in ("absent", "present"):
        for lag in (False, True):
            def go():
                with Tmp() as t:
                    t.prepare(dest)
                    data = bytes((i * 31 + (i >> 8)) & 255 for i in range(n))
                    srv = FetchServer().install(horizon=5000)
                    srv.frag_size = frag
                    srv.messages = [out(o) for o in outputs([data])] + [DONE]
                    if lag:
                        orig, k = srv.take, [0]

                        def take(req, q):
                            k[0] += 1
                            return [] if k[0] % 2 else orig(req, q)
                        srv.take = take
                    succeeded(t, attempt(t, srv, configuration_name="Other.Conf"), data, "sizes")
                    clean(srv)
                    need(next(iter(srv.shells.values())).uri.endswith("/Other.Conf"), "configuration", "configuration")
                    return n, True
            rep.execute(go, case=list(case) + [dest, lag])


def other(b64):
    return ("B" if b64[:1] != "B" else "C") + b64[1:] if b64 else "QQ=="


def damages(outs):
    """every single change: (name, list of messages)"""
    n = len(outs)
    ms = [out(o) for o in outs]
    for i in range(n):
        yield "drop %d" % i, ms[:i] + ms[i + 1:]
        yield "twice %d" % i, ms[:i + 1] + ms[i:]
        yield "flip %d" % i, ms[:i] + [out(other(outs[i]))] + ms[i + 1:]
        yield "cut %d" % i, ms[:i] + [out(outs[i][:len(outs[i]) // 8 * 4])] + ms[i + 1:]
        yield "cut1 %d" % i, ms[:i] + [out(outs[i][:-1])] + ms[i + 1:]
        yield "blank %d" % i, ms[:i] + [out("")] + ms[i + 1:]
        yield "null %d" % i, ms[:i] + [(wire.OUTPUT, "<Nil />")] + ms[i + 1:]
        yield "int %d" % i, ms[:i] + [(wire.OUTPUT, "<I32>7</I32>")] + ms[i + 1:]
        yield "object %d" % i, ms[:i] + [(wire.OUTPUT, '<Obj RefId="0"><LST><S>%s</S></LST></Obj>' % outs[i])] + ms[i + 1:]
        yield "not base64 %d" % i, ms[:i] + [out("*!" + outs[i][2:])] + ms[i + 1:]
        yield "extra %d" % i, ms[:i] + [out("QUJD")] + ms[i:]
    for i in range(n - 1):
        yield "swap %d" % i, ms[:i] + [ms[i + 1], ms[i]] + ms[i + 2:]
    yield "extra end", ms + [out("QUJD")]
    yield "nothing", []
    yield "hash of other data", ms[:-1] + [out(hashlib.sha1(b"else").hexdigest())]
    yield "two hashes", ms + [out(hashlib.sha1(b"else").hexdigest())]
    yield "other algorithm", ms[:-1] + [out(hashlib.md5(b"else").hexdigest())]


def run_damage(case, rep):
    _, parts, dest = case
    parts = [bytes(p) for p in parts]
    data = b"".join(parts)
    outs = outputs(parts)
    for name, ms in damages(outs):
        def go():
            with Tmp() as t:
                t.prepare(dest)
                srv = FetchServer().install()
                srv.messages = ms + [DONE]
                r = attempt(t, srv)
                if r == "ok":
                    # only acceptable when nothing was really damaged
                    need(t.content() == data and ms and ms[-1] == out(outs[-1]), "fetch returned although the outputs were damaged (%s), destination %r" % (name, t.content()), "damage-ignored")
                    same(t.litter(), [], "files left behind", "damage-litter")
                else:
                    failed(t, r, "the outputs were damaged (%s)" % name, "damage")
                clean(srv)
                return (name, r == "ok"), True
        rep.execute(go, case=["damage", [list(p) for p in parts], dest, name])


def run_answers(case, rep):
    """complete data, but the server also reports an error or does not complete"""
    _, dest = case
    good = [out(o) for o in outputs([b"abc"])]
    err = (wire.ERROR, clixml.error_record("it broke", "Err,Fq"))
    warn = (wire.WARNING, clixml.info_record("Warning", "careful"))
    prog = (wire.PROGRESS, clixml.progress("busy"))
    finals = {"done": DONE, "failed": (wire.PIPE_STATE, clixml.pipeline_state(5, "boom")), "failed-bare": (wire.PIPE_STATE, clixml.pipeline_state(5)), "stopped": (wire.PIPE_STATE, clixml.pipeline_state(3, "stopped"))}
    for f in finals:
        for at in range(4):
            for extra in ((), (warn,), (prog,), (err,), (err, warn)):
                def go():
                    with Tmp() as t:
                        t.prepare(dest)
                        srv = FetchServer().install()
                        ms = list(good)
                        if at < 3:
                            ms[at:at] = extra
                        else:
                            ms = list(extra)         # no data at all
                        srv.messages = ms + [finals[f]]
                        r = attempt(t, srv)
                        if f == "done" and at < 3 and err not in extra:
                            succeeded(t, r, b"abc", "answers")
                        else:
                            failed(t, r, "the server answered an error or no data (%s)" % f, "answers")
                        clean(srv)
                        return (f, at, len(extra)), True
                rep.execute(go, case=list(case) + [f, at, [m[0] for m in extra]])


KINDS = {"fault": lambda: Fault(server.ACCESS_DENIED), "fault-quota": lambda: Fault(2150859173), "500": lambda: Raw(500, b"", {}), "401": lambda: Raw(401, b"", {}), "html": lambda: Raw(200, b"<html>", {"Content-Type": "text/html"}), "conn": lambda: requests.ConnectionError("cut"), "read": lambda: requests.ReadTimeout("slow")}


def run_faults(case, rep):
    _, kind, dest, after = case
    data = bytes(range(200)) * 3

    def server_for():
        srv = FetchServer().install()
        srv.frag_size = 150
        srv.messages = [out(o) for o in outputs([data])] + [DONE]
        return srv
    with Tmp() as t:
        t.prepare(dest)
        srv = server_for()
        attempt(t, srv)
        actions = srv.actions()
    for at in range(len(actions)):
        if kind == "read" and after and actions[at] == "Receive":
            continue

        def go():
            with Tmp() as t:
                t.prepare(dest)
                srv = server_for()

                def fail(i, req):
                    need(t.content() == t.old() or t.content() == data, "the destination is incomplete at request %d" % i, "partial")
                    if i == at and not after:
                        raise KINDS[kind]()
                srv.on_request = fail
                if after:
                    orig = srv.after

                    def aft(req, body):
                        if len(srv.log) - 1 == at:
                            raise KINDS[kind]()
                        return orig(req, body)
                    srv.after = aft
                r = attempt(t, srv)
                if actions[at] == "Delete" or (kind == "read" and actions[at] == "Receive"):
                    if r == "ok":
                        succeeded(t, r, data, "faults")
                    else:
                        same(t.litter(), [], "files left behind", "faults-litter")
                else:
                    failed(t, r, "request %d (%s) failed" % (at, actions[at]), "faults")
                return (at, r == "ok"), True
        rep.execute(go, case=list(case) + [at])


# ---- local failures
HOOK = {"on": None}


def _audit(event, args):
    f = HOOK["on"]
    if f is not None:
        f(event, args)


_installed = []


def audit(f):
    if not _installed:
        sys.addaudithook(_audit)
        _installed.append(True)
    HOOK["on"] = f


EVENTS = ("open", "os.remove", "os.rename", "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate", "os.utime", "os.mkdir", "os.rmdir", "os.setxattr", "tempfile.mkstemp", "tempfile.mkdtemp", "shutil.copyfile", "shutil.copymode", "shutil.copystat", "shutil.move")


def run_local(case, rep):
    """the n-th file operation below the scratch folder fails; the destination is watched at each of them"""
    _, dest, errno_ = case
    data = b"new content\x00\xff" * 3
    nth, hit = 0, [True]
    while hit[0] and nth < 60:
        nth += 1

        def go():
            with Tmp() as t:
                t.prepare(dest)
                srv = FetchServer().install()
                srv.messages = [out(o) for o in outputs([data])] + [DONE]
                seen, bad, what = [0], [], [None]
                hit[0] = False

                def hook(event, args):
                    if event not in EVENTS:
                        return
                    paths = [os.fsdecode(a) for a in args if isinstance(a, (str, bytes))]
                    if not any(p.startswith(t.d) for p in paths):
                        return
                    HOOK["on"] = None
                    try:
                        c = t.content()
                        if c not in (t.old(), data):
                            bad.append((seen[0], event, c))
                        seen[0] += 1
                        if seen[0] == nth:
                            hit[0] = True
                            what[0] = event
                    finally:
                        HOOK["on"] = hook
                    if seen[0] == nth:
                        raise OSError(errno_, os.strerror(errno_), paths[0])
                audit(hook)
                try:
                    r = attempt(t, srv)
                finally:
                    HOOK["on"] = None
                need(not bad, "the destination was incomplete during the fetch: %r" % (bad[:1],), "partial")
                clean(srv)
                if not hit[0]:
                    succeeded(t, r, data, "local")
                    return "not reached", False
                if what[0] == "os.remove":
                    need(t.content() in (t.old(), data), "the destination is damaged", "local-destination")
                else:
                    failed(t, r, "file operation %d (%s) failed" % (nth, what[0]), "local") if r != "ok" or t.content() != data else succeeded(t, r, data, "local")
                return (nth, what[0], r == "ok"), True
        rep.execute(go, case=list(case) + [nth])
    need(nth > 3, "no file operations were seen", "harness")


def run_full(case, rep):
    """no file may grow beyond `limit` bytes: writes are cut short there, then fail"""
    _, dest, limits, n = case
    data = bytes((i * 7 + 1) & 255 for i in range(n))
    for limit in range(*limits):
        def go():
            with Tmp() as t:
                t.prepare(dest)
                srv = FetchServer().install()
                srv.messages = [out(o) for o in outputs([data])] + [DONE]
                old = resource.getrlimit(resource.RLIMIT_FSIZE)
                sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
                try:
                    r = attempt(t, srv)
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, old)
                    signal.signal(signal.SIGXFSZ, sig)
                if limit < n:
                    failed(t, r, "only %d of %d bytes could be written" % (limit, n), "full")
                else:
                    succeeded(t, r, data, "full")
                clean(srv)
                return (limit, r == "ok"), limit < n
        rep.execute(go, case=list(case) + [limit])


def run_paths(case, rep):
    """how the destination is named"""
    home, cwd = os.environ.get("HOME"), os.getcwd()
    for name in ("abs", "rel", "var", "var-off", "home", "home-off", "dir", "missing-dir", "percent", "nul", "dangling"):
        def go():
            with Tmp() as t:
                t.prepare("absent")
                os.chdir(t.dest_dir)
                os.environ["P26_DIR"] = t.dest_dir
                os.environ["HOME"] = t.dest_dir
                try:
                    srv = FetchServer().install()
                    srv.messages = [out(o) for o in outputs([b"xyz"])] + [DONE]
                    exp = name in ("var", "home")
                    arg, real = {"abs": (t.dest, t.dest), "rel": ("file.bin", t.dest), "var": ("$P26_DIR/file.bin", t.dest), "home": ("~/file.bin", t.dest),
                                 "var-off": ("$P26_DIR_file.bin", os.path.join(t.dest_dir, "$P26_DIR_file.bin")), "home-off": ("~file.bin", os.path.join(t.dest_dir, "~file.bin")),
                                 "percent": ("%TMP%f <&>\u00e9.bin", os.path.join(t.dest_dir, "%TMP%f <&>\u00e9.bin")), "dir": (t.dest_dir, None), "missing-dir": (t.dest_dir + "/none/file.bin", None), "nul": ("a\0b", None), "dangling": (t.dest_dir + "/link", t.d + "/target.bin")}[name]
                    if name == "dangling":
                        os.symlink(t.d + "/target.bin", arg)
                    c = client()
                    try:
                        c.fetch("C:\\r", arg, expand_variables=exp)
                        r = "ok"
                    except (core.Violation, core.HarnessError):
                        raise
                    except Exception as e:
                        r = e
                    if real is not None:
                        if r != "ok":
                            raise r
                        with open(real, "rb") as f:
                            need(f.read() == b"xyz", "wrong content", "path-bytes")
                        names = os.listdir(t.dest_dir)
                        same(len(names), 1, "files in the destination folder %r" % names, "path-litter")
                    elif name == "dir":
                        files = [open(os.path.join(arg, x), "rb").read() for x in os.listdir(arg)]
                        same(files, [b"xyz"] if r == "ok" else [], "files in the folder named as the destination", "path-dir")
                    else:
                        need(r != "ok", "fetch to %r returned" % arg, "path-ignored")
                        same(os.listdir(t.dest_dir), [], "files in the destination folder", "path-litter")
                    same(os.listdir(t.tmp_dir), [], "files left behind", "path-litter")
                    clean(srv)
                    return (name, r == "ok"), True
                finally:
                    os.chdir(cwd)
                    os.environ.pop("P26_DIR")
                    os.environ.pop("HOME") if home is None else os.environ.__setitem__("HOME", home)
        rep.execute(go, case=["paths", name])


def run_history(case, rep):
    """several fetches to one destination, over one client, good and bad"""
    _, length = case
    for seq in itertools.product(("good", "bad-hash", "failed", "fault", "empty"), repeat=length):
        def go():
            with Tmp() as t:
                t.prepare("absent")
                srv = FetchServer().install(horizon=2000)
                c = client()
                now = None
                for i, what in enumerate(seq):
                    data = b"" if what == "empty" else b"v%d" % i * (9 - i)
                    outs = outputs([data])
                    if what == "bad-hash":
                        outs[-1] = "0" * 40
                    srv.messages = [out(o) for o in outs] + [(wire.PIPE_STATE, clixml.pipeline_state(5, "boom")) if what == "failed" else DONE]

                    def fail(k, req):
                        if what == "fault" and req.action == "Command":
                            raise Fault(server.ACCESS_DENIED)
                    srv.on_request = fail
                    try:
                        c.fetch("C:\\r", t.dest)
                        need(what in ("good", "empty"), "fetch %d (%s) returned" % (i, what), "history-ignored")
                        now = data
                    except (core.Violation, core.HarnessError):
                        raise
                    except Exception as e:
                        need(what not in ("good", "empty"), "fetch %d (%s) failed: %r" % (i, what, e), "history")
                    need(t.content() == now, "after fetch %d the destination holds %r" % (i, t.content()), "history-bytes")
                    same(t.litter(), [], "files left behind", "history-litter")
                clean(srv)
                return seq, length > 1
        rep.execute(go, case=list(case) + [seq])


DESTS = ("absent", "present", "link")


def cases(tier):
    t = tier == "thorough"
    c = [("contents", n, d) for n in ((3, 2, 1, 0) if not t else (4, 3, 2, 1, 0)) for d in (DESTS if n < 3 else ("present",))]
    c += [("history", n) for n in ((3, 2, 1) if not t else (4, 3, 2, 1))]
    c += [("full", d, (lo, min(lo + 14, n + 3)), n) for d in DESTS for n in ((40, 1) if not t else (200, 40, 1)) for lo in range(0, n + 2, 14)]
    c += [("full", "present", (0, 100010, 9001), 100000)]
    c += [("local", d, e) for d in DESTS for e in (28, 13, 5)]
    c += [("damage", p, d) for p in ([[65, 66, 67]], [[1], [2]], [[0, 255, 10], [65], [7, 7]], [[]], []) for d in DESTS]
    c += [("answers", d) for d in DESTS]
    c += [("faults", k, d, a) for k in KINDS for d in ("absent", "present") for a in (False, True)]
    c += [("sizes", n, f) for n in (100, 5000, 70000) for f in (700, 32000)]
    c += [("sizes", n, 32000) for n in (2 ** 20 + 1, 3 * 2 ** 20 + 77)]
    c += [("paths",)]
    return c


def run_case(case, rep):
    {"contents": run_contents, "sizes": run_sizes, "damage": run_damage, "answers": run_answers, "faults": run_faults, "local": run_local, "full": run_full, "paths": run_paths, "history": run_history}[case[0]](case, rep)
