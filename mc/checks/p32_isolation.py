"""P32: sessions and pipelines do not influence each other."""
import base64
import itertools
import os
import re
import sys
import threading

from mc import clixml, core, drive, env, server, wire
from mc.checks import p29_failures as f
from mc.core import need, same

PROP = "P32"
LEVEL = "exploration"
TECHNIQUE = "exhaustive interleaving exploration of the real classes: every merge of the steps of two sessions or of the pipelines of one pool (bounded context switches for long ones), every request-level schedule of two threads with at most three switches, one session run inside another at every function call, and every sequence of sessions that reuse a connection, host and argument objects; each session is compared with itself run alone"
LEVEL_NOTE = "Two sessions from fifteen scenarios in every pair, separate or shared connection, shared host and argument objects, servers of different protocol versions and keys: quick all schedules of at most two switches and all merges of the short pairs, thorough at most three switches for every pair of sessions (threads: three for three pairs, two for every pair); two (thorough three) pipelines of one pool from eleven scenarios: all merges up to a bound on their number, all schedules of at most three switches beyond; every pair (thorough triple) of sessions in sequence; every reached pair of pipeline states across disconnect and reconnect."
RULE = "one evaluation = one interleaving compared with the runs alone; non-trivial when at least one switch happens inside a session"
ASSUMPTIONS = ["identifiers are compared up to renaming in order of appearance", "enumerations of shells and the size limit of a shared connection belong to the connection, not to a session"]

DEEP = os.environ.get("VERIF_TIER") == "thorough"
GUID = re.compile(r"[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}")
CUR = ["-"]          # the session that is running now


def owner():
    n = threading.current_thread().name
    return n[6:] if n.startswith("scene-") else CUR[0]


class Srv(f.Ps):
    """notes which session caused each request and each message"""
    name = "srv"

    def before(self, req):
        req.owner = owner()
        super().before(req)
        point = POINT[0]
        if point is not None:
            point()

    def check_msg(self, sh, pipe, m):
        m.owner = owner()
        return super().check_msg(sh, pipe, m)

    def on_host_response(self, sh, m):
        m.owner = owner()
        super().on_host_response(sh, m)

    def on_pipe_message(self, sh, p, m):
        cmd = server.commands(p.created)[0]["Cmd"] if m.type == wire.CREATE_PIPELINE else None
        if cmd == "fails":
            self.send(sh, p, wire.OUTPUT, "<S>partly</S>")
            self.send(sh, p, wire.ERROR, clixml.error_record("one", "E1"))
            self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(5, "boom"))
            return
        if cmd == "secret":
            # echoes what it was given, and an encrypted string of its own
            self.send(sh, p, wire.OUTPUT, "<S>%s</S>" % clixml.escape(repr(clixml.plain(p.created)["PowerShell"]["Cmds"])))
            self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(4))
            return
        if m.type == wire.CREATE_PIPELINE and "Out-String" in str(p.created):
            self.send(sh, p, wire.OUTPUT, "<S>%s</S>" % cmd)
            self.send(sh, p, wire.WARNING, clixml.info_record("Warning", "careful"))
            self.send(sh, p, wire.OUTPUT, "<S>%s</S>" % ("ab" * (f.BIG // 2)))
            self.send(sh, p, wire.PIPE_STATE, clixml.pipeline_state(4))
            return
        super().on_pipe_message(sh, p, m)


POINT = [None]
SERVERS = {}


def world(n=2, horizon=400):
    """n servers behind the transport, of different versions, keys and piece sizes"""
    SERVERS.clear()
    for i in range(n):
        s = Srv()
        s.name = "srv" if i == 0 else "srv%d" % (i + 1)
        s.protocol = ("2.3", "2.1", "2.2")[i]
        s.session_key = bytes(range(i, 32 + i))
        s.frag_size = (1200, 700, 2000)[i]
        s.oid_base = i
        SERVERS[s.name] = s

    def http(adapter, request, kw):
        host = re.match(r"https?://([^:/]+)", request.url).group(1)
        want = (USERS[host], host + ".pem", 50 if host == "srv" else 60)
        got = (base64.b64decode(request.headers.get("Authorization", "Basic ").split()[-1]).decode(), kw.get("verify"), kw["timeout"][1] if isinstance(kw.get("timeout"), tuple) else kw.get("timeout"))
        if got != want:
            raise core.Violation("request to %s was sent with the settings %r instead of those of its connection %r" % (host, got, want), "connection-settings")
        return SERVERS[host].http(adapter, request, kw)
    env.start(http, horizon=horizon)
    return list(SERVERS.values())


USERS = {"srv": "user:pass", "srv2": "other:word", "srv3": "third:key"}


def settings(name):
    user, password = USERS[name].split(":")
    return dict(ssl=True, auth="basic", username=user, password=password, encryption="auto", max_envelope_size=3500, reconnection_backoff=0, cert_validation=name + ".pem", read_timeout=50 if name == "srv" else 60)


def connect(name="srv", **kw):
    from pypsrp.wsman import WSMan
    return WSMan(name, **dict(settings(name), **kw))


# ------------------------------------------------------------ objects the sessions may share

class Shared:
    def __init__(self):
        from pypsrp.complex_objects import Coordinates, GenericComplexObject
        g = GenericComplexObject()
        g.property_sets = ["set"]
        g.adapted_properties = {"a": [1, "x"], "b": None}
        g.extended_properties = {"e": {"k": "v"}}
        g.to_string = "generic"
        g.types = ["My.Type", "System.Object"]
        self.inner = ["deep"]
        self.calls = []
        self.values = {"List": [1, "two", self.inner, self.inner], "Dict": {"k": self.inner, "n": None}, "Obj": g, "Pos": Coordinates(x=1, y=2), "Text": "t\u00e9xt _x0041_\n"}
        shared = self
        from pypsrp.host import PSHost, PSHostUserInterface

        class UI(PSHostUserInterface):
            def ReadLine(self, runspace, pipeline):
                shared.calls.append((owner(), runspace.id if runspace else None, pipeline.id if pipeline else None))
                return "typed for " + owner()
        self.host = PSHost(None, None, False, "h", None, UI(), "1.0")

    def frozen(self):
        return repr(drive.freeze(self.values))


class Scene(f.Scene):
    def __init__(self, conn, name, shared):
        super().__init__(conn)
        self.name, self.shared = name, shared


def s_args(s):
    """parameters, arguments and input objects that other sessions use too"""
    v = s.shared.values
    pool = s.pool(host=s.shared.host)
    yield pool.open
    ps = s.pipe(pool, "echo")

    def build():
        ps.add_parameters(v)
        ps.add_argument(v["List"])
        ps.add_cmdlet("Second").add_parameter("Again", v["Obj"])
        ps.add_statement().add_script("third").add_argument(v["Dict"])
    yield build
    yield lambda: ps.begin_invoke([v["List"], v["Obj"], v["Dict"]])
    yield ps.end_invoke
    yield lambda: f.seen(ps)
    yield pool.close


def s_hosted(s):
    """prompts to a host object that serves other sessions too"""
    pool = s.pool(host=s.shared.host)
    yield pool.open
    ps = s.pipe(pool, "prompt")
    yield ps.begin_invoke
    yield ps.poll_invoke
    yield ps.end_invoke
    yield lambda: f.seen(ps)

    def calls():
        mine = [c[1:] for c in s.shared.calls if c[0] == s.name]
        need(mine == [(pool.id, ps.id)], "the host was called for %r instead of pool and pipeline of the session" % (mine,), "host-call")
        return len(mine)
    yield calls
    yield pool.close


def s_secret(s):
    """encrypted strings under the session's own key"""
    from pypsrp.complex_objects import PSCredential
    from pypsrp.serializer import TaggedValue
    pool = s.pool()
    yield pool.open
    yield pool.exchange_keys
    ps = s.pipe(pool, "secret")
    yield lambda: ps.add_parameters({"Password": TaggedValue("SS", "secret"), "Credential": PSCredential(username="u", password="p\u00e4ss")}) and None
    yield ps.invoke
    yield lambda: f.seen(ps)
    yield pool.close


def s_fails(s):
    pool = s.pool()
    yield pool.open
    ps = s.pipe(pool, "fails")

    def run():
        try:
            return ps.invoke()
        except Exception as e:
            return "%s: %s" % (type(e).__name__, e)
    yield run
    yield lambda: f.seen(ps)
    yield ps.close
    yield pool.close


def s_control(s):
    pool = s.pool(min_runspaces=1, max_runspaces=2)

    def reset():
        try:
            return pool.reset_runspace_state()
        except Exception as e:      # old protocol versions cannot
            return "%s: %s" % (type(e).__name__, e)
    yield pool.open
    yield lambda: setattr(pool, "max_runspaces", 4)
    yield lambda: setattr(pool, "min_runspaces", 2)
    yield pool.get_available_runspaces
    yield reset
    yield lambda: (pool.max_runspaces, pool.min_runspaces)
    yield pool.close


SCENES = dict(f.PSCENES, control=s_control, args=s_args, hosted=s_hosted, secret=s_secret, fails=s_fails)


def canon(x, ids):
    def sub(m):
        k = m.group(0).upper()
        if k == str(wire.NIL):
            return "NIL"
        return "ID%d" % ids.setdefault(k, len(ids))
    return GUID.sub(sub, x if isinstance(x, str) else repr(x))


def body_of(m):
    if not m.body:
        return ""
    if m.type == wire.PUBLIC_KEY:
        return "public key of %d bytes" % len(m.body)      # a fresh one for every pool
    try:
        return repr(clixml.plain(clixml.decode(m.body)))
    except clixml.Bad as e:
        raise core.Violation("message body is not valid on its own: %s %.200r" % (e, m.body), "body")


def traffic(srv, name, ids):
    """everything a session sent, identifiers renamed in order of appearance"""
    out = []
    for r in srv.log:
        if r.owner == name and r.action != "Enumerate":
            out.append(canon((r.action, r.resource_uri, sorted(r.selectors.items()), r.options, r.command_id, r.stream, r.op_timeout, r.max_env, r.session_id, sorted((k, v) for k, v in r.info.items() if k not in ("data", "cmd"))), ids))
    for sh in srv.shells.values():
        for m in sh.msgs + sh.host_responses:
            if m.owner == name:
                out.append(canon(("pool", sh.id, m.type, str(m.rpid), str(m.pid), body_of(m)), ids))
        for p in sh.pipes.values():
            for m in p.msgs:
                if m.owner == name:
                    out.append(canon(("pipe", sh.id, p.id, m.type, str(m.rpid), str(m.pid), body_of(m)), ids))
    return out


class Run:
    """a session made of steps, run one at a time"""

    def __init__(self, scene, steps, srv):
        self.scene, self.it, self.srv = scene, iter(steps), srv
        self.values, self.error, self.over = [], None, False

    def step(self):
        if self.over:
            return
        was, CUR[0] = CUR[0], self.scene.name
        try:
            op = next(self.it)
            v = op()
            self.values.append(self.keep(v))
        except StopIteration:
            self.over = True
        except (core.Violation, core.HarnessError, core.Horizon):
            raise
        except Exception as e:
            self.error = "%s: %s" % (type(e).__name__, e)
            self.over = True
        finally:
            CUR[0] = was

    def keep(self, v):
        if hasattr(v, "tag") or v is None or type(v).__module__.startswith("pypsrp"):
            return None
        return repr(v) if isinstance(v, tuple) else repr(drive.freeze(v))

    def all(self):
        while not self.over:
            self.step()
        return self

    def outcome(self):
        ids = {}
        t = traffic(self.srv, self.scene.name, ids)
        states = [(int(p.state), int(p.min_runspaces), int(p.max_runspaces), p.protocol_version, repr(drive.freeze(getattr(p.application_private_data, "data", p.application_private_data)))) for p in self.scene.pools]
        pipes = [(int(p.state), bool(p.had_errors), repr(drive.result(p))) for p in self.scene.pipes]
        return {"values": [canon(v, ids) for v in self.values], "error": self.error, "requests": t, "pools": states, "pipelines": [canon(x, ids) for x in pipes]}


def compare(got, want, label):
    for k in want:
        if got[k] != want[k]:
            g, w = got[k], want[k]
            if isinstance(w, list):
                i = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
                g, w = g[i:i + 1], w[i:i + 1]
            raise core.Violation("%s: %s differ from the session alone: %.300r instead of %.300r" % (label, k, g, w), "differs-" + k, session=label)


def clean(names=None):
    for s in SERVERS.values():
        need(not s.errors, "request the server %s cannot accept: %s" % (s.name, s.errors[:2]), "requests")
        need(not s.oversize, "over the envelope limit: %s" % (s.oversize[:2],), "oversize")


_solo = {}


def solo(name, srv, scenes=None):
    """(what the session does alone on that server, number of steps, number of requests)"""
    key = (name, srv, os.getpid())
    if key not in _solo:
        world(2)
        r = Run(Scene(connect(srv), "solo", Shared()), (), SERVERS[srv])
        r.it = iter(SCENES[name](r.scene))
        r.all()
        out = r.outcome()
        clean()
        need(r.error is None, "scenario %s fails by itself: %s" % (name, r.error), "alone")
        _solo[key] = ({k: [x.replace("typed for solo", "typed for X") for x in v] if isinstance(v, list) and v and isinstance(v[0], str) else v for k, v in out.items()}, len(r.values) + 1, len([q for q in SERVERS[srv].log]))
    return _solo[key]


def relabel(out, name):
    return {k: [x.replace("typed for " + name, "typed for X") for x in v] if isinstance(v, list) and v and isinstance(v[0], str) else v for k, v in out.items()}


# ------------------------------------------------------------ two sessions

def switched(na, nb, switches):
    """all schedules of two step lists with at most that many switches"""
    out = set()
    for first in (0, 1):
        n = (na, nb)
        for blocks in range(1, switches + 2):
            who = [(first + i) % 2 for i in range(blocks)]

            def rec(i, left, acc):
                if i == blocks:
                    if left == [0, 0]:
                        out.add(tuple(acc))
                    return
                w = who[i]
                last = w not in who[i + 1:]
                for k in ([left[w]] if last else range(1, left[w])):
                    l2 = list(left)
                    l2[w] -= k
                    rec(i + 1, l2, acc + [w] * k)
            rec(0, list(n), [])
    return sorted(out)


def merges(*ns):
    """all merges of step lists of these lengths"""
    def rec(left, acc):
        if not any(left):
            yield tuple(acc)
            return
        for i, n in enumerate(left):
            if n:
                l2 = list(left)
                l2[i] -= 1
                yield from rec(l2, acc + [i])
    return rec(list(ns), [])


def pair(rep, case, names, mode, schedules):
    srvs = ["srv", "srv"] if mode == "conn" else ["srv", "srv2"]
    alone = [solo(n, s) for n, s in zip(names, srvs)]
    lens = [a[1] for a in alone]
    for sched in schedules(*lens):
        def fn():
            world(2)
            shared = Shared()
            before = shared.frozen()
            c = connect(srvs[0])
            conns = [c, c if mode == "conn" else connect(srvs[1])]
            runs = []
            for i, n in enumerate(names):
                sc = Scene(conns[i], "ab"[i], shared if mode != "own" else Shared())
                r = Run(sc, (), SERVERS[srvs[i]])
                r.it = iter(SCENES[n](sc))
                runs.append(r)
            for i in sched:
                runs[i].step()
            for r in runs:
                r.all()
            for i, n in enumerate(names):
                compare(relabel(runs[i].outcome(), "ab"[i]), alone[i][0], "%s (%s)" % (n, "ab"[i]))
            clean()
            same(shared.frozen(), before, "the shared argument objects", "arguments-changed")
            return "same", len(set(sched)) > 1
        rep.execute(fn, case=case, choices=lambda: list(sched))


SHORT = ["plain", "meta", "hosted", "args", "secret", "control"]
NOCONN = ["config"]


def run_pair(case, rep):
    _, mode, a, b, how = case
    if how == "all":
        pair(rep, case, (a, b), mode, merges)
    else:
        pair(rep, case, (a, b), mode, lambda x, y: switched(x, y, how))


# ------------------------------------------------------------ the pipelines of one pool

def q_plain(s, pool):
    ps = s.pipe(pool, "Get-A")
    ps.add_parameter("P", ["v", {"k": 1}])
    yield ps.begin_invoke
    yield ps.poll_invoke
    yield lambda: (int(ps.state), len(ps.output))
    yield ps.end_invoke
    yield lambda: f.seen(ps)
    yield ps.close


def q_invoke(s, pool):
    ps = s.pipe(pool, "Get-B")
    yield ps.invoke
    yield lambda: f.seen(ps)
    yield ps.close


def q_input(s, pool):
    ps = s.pipe(pool, "echo")
    yield lambda: ps.begin_invoke(x for x in ["one", ["two" * 900, 3], "x" * 3000])
    yield ps.end_invoke
    yield lambda: f.seen(ps)
    yield ps.close


def q_prompt(s, pool):
    ps = s.pipe(pool, "prompt")
    yield ps.begin_invoke
    yield ps.poll_invoke
    yield ps.end_invoke
    yield lambda: f.seen(ps)
    yield ps.close


def q_stop(s, pool):
    ps = s.pipe(pool, "endless")
    yield ps.begin_invoke
    yield ps.poll_invoke
    yield ps.stop
    yield lambda: f.seen(ps)
    yield ps.close


def q_stop_early(s, pool):
    ps = s.pipe(pool, "endless")
    yield ps.begin_invoke
    yield ps.stop
    yield lambda: f.seen(ps)


def q_fails(s, pool):
    ps = s.pipe(pool, "fails")

    def end():
        try:
            return ps.end_invoke()
        except Exception as e:
            return "%s: %s" % (type(e).__name__, e)
    yield ps.begin_invoke
    yield end
    yield lambda: f.seen(ps)
    yield ps.close


def q_meta(s, pool):
    yield lambda: [m.name for m in pool.get_command_metadata(["Get-*", "x" * 3000])]
    yield lambda: [m.command_type.value for m in pool.get_command_metadata("Get-It")]


def q_again(s, pool):
    """the same pipeline object run twice"""
    ps = s.pipe(pool, "Get-C")
    yield ps.invoke
    yield ps.close
    yield ps.clear_commands
    yield lambda: ps.add_cmdlet("Get-D") and None
    yield ps.begin_invoke
    yield ps.end_invoke
    yield lambda: f.seen(ps)
    yield ps.close


def q_control(s, pool):
    yield pool.get_available_runspaces
    yield lambda: setattr(pool, "max_runspaces", 6)
    yield lambda: setattr(pool, "min_runspaces", 2)
    yield lambda: (pool.min_runspaces, pool.max_runspaces)


def q_keys(s, pool):
    ps = s.pipe(pool, "secret")
    yield pool.exchange_keys

    def build():
        from pypsrp.serializer import TaggedValue
        ps.add_parameter("Password", TaggedValue("SS", "secret"))
    yield build
    yield ps.invoke
    yield lambda: f.seen(ps)
    yield ps.close


QUEUE = {"plain": q_plain, "invoke": q_invoke, "input": q_input, "prompt": q_prompt, "stop": q_stop, "stop-early": q_stop_early, "fails": q_fails, "meta": q_meta, "again": q_again, "control": q_control, "keys": q_keys}


ONCE = ("control", "keys")     # what they ask for changes the pool itself


def shared_pool(names, sched):
    from pypsrp.powershell import RunspacePool
    world(1)
    srv = SERVERS["srv"]
    shared = Shared()
    conn = connect()
    pool = RunspacePool(conn, host=shared.host, min_runspaces=1, max_runspaces=5)
    pool.open()
    runs = []
    for i, n in enumerate(names):
        sc = Scene(conn, "abc"[i], shared)
        r = Run(sc, (), srv)
        r.it = iter(QUEUE[n](sc, pool))
        runs.append(r)
    for i in sched:
        runs[i].step()
    for r in runs:
        r.all()
    outs = []
    for i, r in enumerate(runs):
        o = r.outcome()
        # host calls name the session; the pool's call ids count all control requests
        outs.append(relabel(o, "abc"[i]))
    calls = list(shared.calls)
    for i, r in enumerate(runs):
        mine = [c for c in calls if c[0] == "abc"[i]]
        for c in mine:
            need(c[1] == pool.id and c[2] in [p.id for p in r.scene.pipes], "the host was called with another pipeline", "host-call")
    pool.close()
    clean()
    return outs, [len(r.values) + 1 for r in runs], [r.error for r in runs]


_one = {}


def alone(name):
    key = (name, os.getpid())
    if key not in _one:
        outs, lens, errs = shared_pool([name], [])
        need(errs == [None], "scenario %s fails by itself: %s" % (name, errs), "alone")
        _one[key] = (outs[0], lens[0])
    return _one[key]


def run_pool(case, rep):
    _, names, how, part, parts = case
    base = [alone(n) for n in names]
    lens = [b[1] - 1 for b in base]
    scheds = merges(*lens) if how == "all" else switched(lens[0], lens[1], how)
    for i, sched in enumerate(scheds):
        if i % parts != part:
            continue

        def fn():
            outs, _, _ = shared_pool(names, sched)
            for n, o, b in zip(names, outs, base):
                compare(o, b[0], n)
            return "same", True
        rep.execute(fn, case=case, choices=lambda: list(sched))


# ------------------------------------------------------------ disconnecting a pool with pipelines in every pair of states

def d_run(s, pool, ps):
    yield ps.begin_invoke
    yield ps.poll_invoke


def d_stop(s, pool, ps):
    yield ps.begin_invoke
    yield ps.stop


def d_done(s, pool, ps):
    yield ps.begin_invoke
    yield ps.end_invoke
    yield ps.close


DISC = {"run": ("Get-A", d_run), "stop": ("endless", d_stop), "done": ("Get-B", d_done), "fail": ("fails", d_run)}


def run_disc(case, rep):
    """whatever one pipeline did, the other one is disconnected and found again with its pool"""
    from pypsrp.complex_objects import PSInvocationState as PS
    from pypsrp.powershell import RunspacePool
    for names in ((case[1], x) for x in DISC):
        for na, nb in itertools.product(range(4), repeat=2):
            steps = []
            for n in names:
                steps.append({"run": 2, "fail": 2, "stop": 2, "done": 3}[n])
            if na > steps[0] or nb > steps[1]:
                continue
            for sched in merges(na, nb):
                for other in (False, True):
                    if other and any(names[i] in ("run", "fail") and n == 2 for i, n in enumerate((na, nb))):
                        continue        # half a message was taken by the first client
                    def fn():
                        world(1)
                        srv = SERVERS["srv"]
                        conn = connect()
                        pool = RunspacePool(conn)
                        pool.open()
                        sc = Scene(conn, "a", None)
                        pipes = [sc.pipe(pool, DISC[n][0]) for n in names]
                        its = [iter(DISC[n][1](sc, pool, p)) for n, p in zip(names, pipes)]
                        for i in sched:
                            next(its[i])()
                        before = [int(p.state) for p in pipes]
                        pool.disconnect()
                        for p, s in zip(pipes, before):
                            same(int(p.state), PS.DISCONNECTED if s == PS.RUNNING else s, "state after the pool disconnected", "disconnect-state")
                        running = [p for p, s in zip(pipes, before) if s == PS.RUNNING]
                        if not other:
                            same(sorted(p.id for p in pool.create_disconnected_power_shells()), sorted(p.id for p in running), "disconnected pipelines", "disconnected")
                            pool.connect()
                            found = running
                        else:
                            # terminated ones are gone at the server; others are found by another client
                            p2 = [p for p in RunspacePool.get_runspace_pools(conn) if p.id.upper() == pool.id.upper()]
                            same(len(p2), 1, "pools found", "found")
                            p2[0].connect()
                            pool = p2[0]
                            found = pool.create_disconnected_power_shells()
                            same(sorted(p.id.upper() for p in running) , sorted(p.id.upper() for p in found if p.id.upper() in [r.id.upper() for r in running]), "pipelines found", "found")
                            found = [p for p in found if p.id.upper() in [r.id.upper() for r in running]]
                        for p in found[::-1]:
                            p.connect_async()
                            name = names[[q.id.upper() for q in pipes].index(p.id.upper())]
                            mine = pipes[[q.id.upper() for q in pipes].index(p.id.upper())]
                            if DISC[name][0] == "endless":
                                p.stop()
                                same(int(p.state), PS.STOPPED, "state", "stop")
                            else:
                                p.end_invoke()
                                out = (mine.output if mine is not p else []) + p.output
                                want = ["partly"] if name == "fail" else [DISC[name][0], "ab" * (f.BIG // 2), 7]
                                same([o for o in out], want, "output", "output")
                                same(int(p.state), PS.FAILED if name == "fail" else PS.COMPLETED, "state", "final-state")
                            p.close()
                        pool.close()
                        clean()
                        return len(running), True
                    rep.execute(fn, case=case, choices=lambda: [names, list(sched), other])


# ------------------------------------------------------------ threads with connections of their own

def run_threads(case, rep):
    from mc.checks.p23_liveness import Sched
    _, names, switches = case
    srvs = ["srv", "srv2"]
    base = [solo(n, s) for n, s in zip(names, srvs)]
    lens = [b[2] + 1 for b in base]
    for sched in switched(lens[0], lens[1], switches):
        def fn():
            world(2)
            shared = Shared()
            runs = []
            for i, n in enumerate(names):
                sc = Scene(connect(srvs[i]), "ab"[i], shared)
                r = Run(sc, (), SERVERS[srvs[i]])
                r.it = iter(SCENES[n](sc))
                runs.append(r)
            sch = Sched()
            POINT[0] = sch.point
            try:
                ts = [sch.add("scene-" + "ab"[i], runs[i].all) for i in range(2)]
                sch.run(["scene-" + "ab"[i] for i in sched], ["scene-a", "scene-b"])
                for t in ts:
                    t.join(60)
            finally:
                POINT[0] = None
            for n, e in sch.errors:
                raise e
            for i, n in enumerate(names):
                compare(relabel(runs[i].outcome(), "ab"[i]), base[i][0], "%s (%s)" % (n, "ab"[i]))
            clean()
            return "same", True
        rep.execute(fn, case=case, choices=lambda: list(sched))


# ------------------------------------------------------------ one session inside another at every call or line

def instrumented(name, at, inner, how):
    """runs the session; at its at-th event runs inner(); -> (run, number of events); events are the first entry and
    exit of each function, every entry and exit ("calls") or every line ("lines")"""
    lines = how == "lines"
    shared = Shared()
    sc = Scene(connect("srv"), "a", shared)
    r = Run(sc, (), SERVERS["srv"])
    r.it = iter(SCENES[name](sc))
    src = os.path.join(os.path.realpath(env.SRC), "pypsrp")
    n = [0]
    known = {}

    sites = set()

    def hit(fr, ev):
        if how == "first":
            site = (fr.f_code, fr.f_lineno, ev)
            if site in sites:
                return
            sites.add(site)
        n[0] += 1
        if n[0] - 1 == at:
            sys.settrace(None)
            inner(shared)
            sys.settrace(tracer)

    def local(fr, ev, arg):
        if ev == "line" and lines or ev == "return":
            hit(fr, ev)
        return local

    def tracer(fr, ev, arg):
        code = fr.f_code
        if code not in known:
            known[code] = os.path.realpath(code.co_filename).startswith(src)
        if not known[code]:
            return None
        hit(fr, ev)
        return local
    sys.settrace(tracer)
    try:
        r.all()
    finally:
        sys.settrace(None)
    return r, n[0]


def run_inside(case, rep):
    _, a, b, lines, part, parts = case
    base = solo(a, "srv"), solo(b, "srv2")
    world(2)
    _, total = instrumented(a, -1, None, lines)
    for at in range(part, total, parts):
        def fn():
            world(2)
            box = []

            def inner(shared):
                def go():
                    sc = Scene(connect("srv2"), "b", shared)
                    r = Run(sc, (), SERVERS["srv2"])
                    r.it = iter(SCENES[b](sc))
                    box.append(r)
                    try:
                        r.all()
                    except BaseException as e:
                        box.append(e)
                t = threading.Thread(target=go, name="scene-b")
                t.start()
                t.join(60)
                if len(box) == 2:
                    raise box[1]
            r, _ = instrumented(a, at, inner, lines)
            need(box, "the other session did not run", "harness")
            compare(relabel(r.outcome(), "a"), base[0][0], "%s (a)" % a)
            compare(relabel(box[0].outcome(), "b"), base[1][0], "%s (b)" % b)
            clean()
            return "same", True
        rep.execute(fn, case=case, choices=lambda: [at])


# ------------------------------------------------------------ one after another

def run_serial(case, rep):
    """sessions that reuse the connection, host and argument objects of earlier ones"""
    _, first, n = case
    for rest in itertools.product([x for x in SCENES if x not in NOCONN], repeat=n - 1):
        names = (first,) + rest

        def fn():
            base = [solo(x, "srv") for x in names]
            world(1)
            shared = Shared()
            before = shared.frozen()
            conn = connect()
            for i, x in enumerate(names):
                sc = Scene(conn, "s%d" % i, shared)
                r = Run(sc, (), SERVERS["srv"])
                r.it = iter(SCENES[x](sc))
                r.all()
                compare(relabel(r.outcome(), "s%d" % i), base[i][0], "%s after %s" % (x, names[:i]))
            clean()
            same(shared.frozen(), before, "the shared argument objects", "arguments-changed")
            return "same", n > 1
        rep.execute(fn, case=case, choices=lambda: list(names))


# ------------------------------------------------------------ command shells and helpers

def run_shells(case, rep):
    """the processes of one shell, and of two shells of one connection"""
    from pypsrp.shell import Process, SignalCode, WinRS

    def steps(p, i):
        yield p.begin_invoke
        yield lambda: p.send(b"in%d" % i, end=False)
        yield p.poll_invoke
        yield lambda: (p.stdout, p.stderr)
        yield p.end_invoke
        yield lambda: (p.rc, p.stdout, p.stderr, int(p.state) if str(p.state).isdigit() else str(p.state))
        yield lambda: p.signal(SignalCode.TERMINATE)

    def script(c):
        k = c.executable[-1].encode()
        return [([("stdout", b"out" + k), ("stderr", b"err" + k)], "Running", None), "timeout", ([("stdout", b"more" + k)], None, None), ([("stdout", b"end" + k)], "Done", int(k) + 5)]

    def play(sched, two, n=2):
        srv = f.Cmd(script).install(horizon=2000)
        conn = f.conn_for()
        shells = [WinRS(conn, environment={"a": "b"}) for _ in range(2 if two else 1)]
        for s in shells:
            s.open()
        procs = [Process(shells[i % len(shells)], "run%d" % i, ["arg%d" % i]) for i in range(n)]
        its = [iter(steps(p, i)) for i, p in enumerate(procs)]
        vals = [[] for _ in procs]
        for i in sched:
            v = next(its[i])()
            vals[i].append(None if hasattr(v, "tag") else repr(v))
        need(not srv.errors, "request the server cannot accept: %s" % (srv.errors[:2],), "requests")
        per = []
        for i, p in enumerate(procs):
            c = [c for s in srv.order for c in s.commands.values() if c.executable == "run%d" % i]
            need(len(c) == 1, "%d commands" % len(c), "commands")
            need(c[0].shell is srv.order[i % len(shells)], "the command ran in another shell", "shell")
            per.append((c[0].arguments, c[0].inputs, c[0].signals, c[0].skip_shell, c[0].done))
        for s in shells:
            s.close()
        need(all(s.deleted == 1 for s in srv.order), "shells were not removed once", "deleted")
        return vals, per
    two = case[1]
    solos = []
    for i in range(2):
        v, p = play([i] * 7, False) if False else play([0] * 7 + [1] * 7, two)
        solos.append((v[i], p[i]))
    for j, sched in enumerate(merges(7, 7) if DEEP else switched(7, 7, 3)):
        def fn():
            v, p = play(list(sched), two)
            for i in range(2):
                same((v[i], p[i]), solos[i], "process %d" % i, "process")
                same(v[i][-2].split(",")[0], "(%d" % (i + 5), "return code", "rc")
            return "same", True
        rep.execute(fn, case=case, choices=lambda: list(sched))


def run_client(case, rep):
    """one client used again and again, and two clients in turns, for every sequence of helper calls"""
    from pypsrp.client import Client
    ops = {
        "ps": lambda c: c.execute_ps("script"),
        "ps-env": lambda c: c.execute_ps("script", environment={"a": "b"}),
        "ps-config": lambda c: c.execute_ps("script", configuration_name="Other"),
    }

    def seen(r):
        out, streams, err = r
        return repr((out, err, [[str(x) for x in getattr(streams, s)] for s in drive.STREAMS]))

    def make(i):
        return Client(["srv", "srv2"][i], **settings(["srv", "srv2"][i]))

    def traffic_of(srv, lo):
        ids = {}
        return [canon((r.action, r.resource_uri, r.options, r.command_id, r.stream), ids) for r in srv.log[lo:]]

    alone_ = {}
    for n in ops:
        for i in range(2):
            world(2)
            alone_[n, i] = (seen(ops[n](make(i))), traffic_of(SERVERS[["srv", "srv2"][i]], 0))
    for n in range(1, 5 if DEEP else 4):
        for seq in itertools.product([(o, i) for o in ops for i in range(2)], repeat=n):
            if list(seq[0]) != case[1:]:
                continue
            def fn():
                world(2)
                cs = [make(0), make(1)]
                for o, i in seq:
                    s = SERVERS[["srv", "srv2"][i]]
                    lo = len(s.log)
                    same((seen(ops[o](cs[i])), traffic_of(s, lo)), alone_[o, i], "helper call", "helper")
                clean()
                return "same", n > 1
            rep.execute(fn, case=case, choices=lambda: list(seq))


def cases(tier):
    deep = tier == "thorough"
    out = [["disc", x] for x in DISC] + [["client", o, i] for o in ("ps", "ps-env", "ps-config") for i in range(2)] + [["shells", False], ["shells", True]]
    names = list(SCENES)
    for mode in ("own", "shared", "conn"):
        for a, b in itertools.combinations_with_replacement(names, 2):
            if mode == "conn" and ("config" in (a, b)):
                continue
            if mode == "own" and not deep:
                continue
            out.append(["pair", mode, a, b, 3 if deep else 1])
    for a, b in (("meta", "hosted"), ("meta", "args")) if not deep else [(a, b) for a in ("plain", "meta") for b in SHORT if a != b and (a, b) != ("meta", "plain")]:
        out.append(["pair", "shared", a, b, "all"])
    q = list(QUEUE)
    for a, b in itertools.product(q, repeat=2):
        if (a == b and a in ONCE) or q.index(a) > q.index(b):
            continue
        out.append(["pool", [a, b], 3 if deep else 2, 0, 1])
    for a, b in (("plain", "stop"), ("input", "prompt"), ("stop-early", "plain"), ("fails", "invoke")) if not deep else [(a, b) for i, a in enumerate(q) for b in q[i:] if (a != b or a not in ONCE) and (a, b) not in (("plain", "again"), ("again", "again"))]:
        out.append(["pool", [a, b], "all", 0, 1])
    if deep:
        for t in (("stop-early", "invoke", "meta"), ("invoke", "fails", "stop-early"), ("stop-early", "stop-early", "invoke"), ("meta", "invoke", "control")):
            out += [["pool", list(t), "all", i, 8] for i in range(8)]
    for a, b in (("plain", "hosted"), ("args", "secret"), ("meta", "stop")) if not deep else itertools.combinations_with_replacement(names, 2):
        out.append(["threads", [a, b], 3 if deep and (a, b) in (("plain", "hosted"), ("args", "secret"), ("meta", "stop")) else 2])
    k = 16
    if deep:
        out += [["inside", a, b, "calls", i, k] for a, b in (("args", "plain"), ("two", "two")) for i in range(k)]
    else:
        out += [["inside", "args", "args", "first", i, k] for i in range(k)]
    for a in names:
        if a not in NOCONN:
            out.append(["serial", a, 3 if deep else 2])
    return out


def run_case(case, rep):
    {"pair": run_pair, "pool": run_pool, "disc": run_disc, "threads": run_threads, "inside": run_inside, "serial": run_serial, "shells": run_shells, "client": run_client}[case[0]](case, rep)
