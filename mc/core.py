"""Deviation-bounded stateless explorer, explicit-state helpers, process-pool driver and reporting.

Every check module defines
    PROP, LEVEL, RULE, ASSUMPTIONS
    cases(tier)            -> list of JSON-able case descriptors (the top level of the enumeration)
    run_case(case, rep)    -> explores everything below that case, using `rep` to account for it
Nothing here draws random numbers; VERIF_SEED is only recorded.
"""
import collections
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback


def _now():
    return time.clock_gettime(time.CLOCK_MONOTONIC)


class HarnessError(Exception):
    """The harness itself is wrong (not the code under test)."""


class Violation(Exception):
    def __init__(self, what, key=None, **detail):
        super().__init__(what)
        self.what = what
        self.key = key or what
        self.detail = detail


class Horizon(BaseException):
    """The code under test exceeded the step horizon: it spins or waits forever."""


class CaseTimeout(BaseException):
    pass


def need(cond, what, key=None, **detail):
    if not cond:
        raise Violation(what, key, **detail)


def same(got, want, what, key=None, **detail):
    if got != want:
        raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)), key or what, **detail)


def short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[: n // 2] + "...<%d chars>..." % len(s) + s[-n // 2:]


class Ctx:
    """One execution: `prefix` is replayed, every later choice takes alternative 0."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.choices = []
        self.sizes = []
        self.labels = []
        self.free = []

    def choose(self, n, label="", free=False):
        i = len(self.choices)
        if n <= 0:
            raise HarnessError("empty choice %s" % label)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise HarnessError("divergence while replaying prefix at %d (%s): %d >= %d" % (i, label, c, n))
        self.choices.append(c)
        self.sizes.append(n)
        self.labels.append(label)
        self.free.append(free)
        return c

    def pick(self, options, label="", free=False):
        return options[self.choose(len(options), label, free)]

    def trace(self):
        return ["%s=%d/%d" % (l, c, n) for l, c, n in zip(self.labels, self.choices, self.sizes)]


def explore(body, rep, bound=None, cap=None, case=None):
    """Depth-first over all choice sequences of body(ctx), at most `bound` non-free deviations from 0."""
    todo = collections.deque([[]])
    first = True
    n = 0
    while todo:
        prefix = todo.popleft()
        if cap is not None and n >= cap:
            rep.capped += 1
            return
        ctx = Ctx(prefix)
        out = rep.execute(lambda: body(ctx), case=case, choices=lambda: list(ctx.choices), trace=ctx.trace)
        n += 1
        rep.choice_points += len(ctx.choices)
        if first:
            first = False
            ctx2 = Ctx(ctx.choices)
            out2 = rep.execute(lambda: body(ctx2), case=case, choices=lambda: list(ctx2.choices), trace=ctx2.trace, count=False)
            if out2 != out or ctx2.choices != ctx.choices:
                raise HarnessError("the same schedule gave two outcomes: %s / %s" % (short(out), short(out2)))
        if len(ctx.choices) < len(prefix):
            raise HarnessError("divergence: execution shorter than its prefix")
        cost = sum(1 for c, f in zip(ctx.choices[: len(prefix)], ctx.free) if c and not f)
        for i in range(len(prefix), len(ctx.choices)):
            extra = 0 if ctx.free[i] else 1
            if bound is not None and cost + extra > bound:
                continue
            for alt in range(1, ctx.sizes[i]):
                todo.append(ctx.choices[:i] + [alt])


class Rep:
    """Accounting for the executions of one case (merged over cases by the driver)."""

    MAX_VIOL = 25

    def __init__(self):
        self.evaluations = 0
        self.choice_points = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.nontrivial = set()
        self.outcomes = set()
        self.samples = []
        self.capped = 0
        self.violations = []
        self.extra = collections.Counter()

    def digest(self, v):
        return hashlib.blake2b(repr(v).encode("utf-8", "surrogatepass"), digest_size=8).digest()

    def note(self, outcome, nontrivial=True):
        d = self.digest(outcome)
        self.outcomes.add(d)
        if nontrivial:
            self.nontrivial.add(d)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def execute(self, fn, case=None, choices=None, trace=None, count=True):
        """Run one execution; the body returns (outcome, nontrivial) and raises Violation when it is wrong."""
        if count:
            self.evaluations += 1
        try:
            res = fn()
        except Violation as v:
            self.violation(v.what, v.key, case, choices() if choices else None, trace() if trace else None, v.detail)
            return ("violation", v.key)
        except Horizon as h:
            self.violation("no progress within the step horizon: %s" % h, "horizon: %s" % h, case,
                           choices() if choices else None, trace() if trace else None, {})
            return ("violation", "horizon")
        except (HarnessError, CaseTimeout, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:  # the code under test raised where the model says it must not
            tb = traceback.format_exc()
            self.violation("unexpected %s: %s" % (type(e).__name__, short(str(e))), "unexpected %s" % type(e).__name__, case,
                           choices() if choices else None, trace() if trace else None, {"traceback": tb[-3000:]})
            return ("violation", type(e).__name__)
        if isinstance(res, tuple) and len(res) == 2 and isinstance(res[1], bool):
            out, nt = res
        else:
            out, nt = res, True
        if count:
            self.note((case if case is not None else 0, out), nt)
        return out

    def violation(self, what, key, case, choices, trace, detail):
        if choices is not None and not isinstance(choices, (list, tuple)):
            choices = [choices]
        if len(self.violations) < self.MAX_VIOL:
            self.violations.append(dict(what=what, key=key, case=case, choices=choices, trace=trace, detail=detail))
        else:
            # keep one of each distinct key so that a known finding cannot hide something else
            if key not in {v["key"] for v in self.violations} and len(self.violations) < 4 * self.MAX_VIOL:
                self.violations.append(dict(what=what, key=key, case=case, choices=choices, trace=trace, detail=detail))

    def merge(self, o):
        self.evaluations += o.evaluations
        self.choice_points += o.choice_points
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.nontrivial |= o.nontrivial
        self.outcomes |= o.outcomes
        self.capped += o.capped
        self.extra.update(o.extra)
        for s in o.samples:
            if len(self.samples) < 4:
                self.samples.append(s)
        self.violations.extend(o.violations)


def bfs(rep, initial, events, step, invariant=None, case=None, max_depth=None, max_states=None):
    """Explicit-state search.  A state is reached by an event history; step(hist) replays it on the real
    code (fresh objects) and returns (canonical_state, enabled_events)."""
    def run(hist):
        box = {}

        def body():
            box["r"] = step(hist)
            return (box["r"][0], len(hist) > 0)
        rep.execute(body, case=case, choices=lambda: [list(h) if isinstance(h, tuple) else h for h in hist])
        rep.traces += 1
        return box.get("r")
    r = run(initial)
    if r is None:
        return 0
    seen = {r[0]}
    rep.states += 1
    q = collections.deque([(initial, r[1])])
    depth = 0
    while q:
        hist, enabled = q.popleft()
        depth = max(depth, len(hist))
        if max_depth is not None and len(hist) >= max_depth:
            continue
        for ev in enabled:
            rep.transitions += 1
            r = run(hist + [ev])
            if r is None:
                continue
            if r[0] not in seen:
                if max_states is not None and len(seen) >= max_states:
                    rep.capped += 1
                    return depth
                seen.add(r[0])
                rep.states += 1
                q.append((hist + [ev], r[1]))
    rep.extra["max_depth"] = max(rep.extra["max_depth"], depth)
    return depth


# ---------------------------------------------------------------- driver

def _alarm(signum, frame):
    raise CaseTimeout()


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        # code under test that grows without end fails here, and not the whole sandbox
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass


_MOD = None


def _run_one(arg):
    idx, case, limit = arg
    rep = Rep()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        _MOD.run_case(case, rep)
    except CaseTimeout:
        rep.violation("no answer within %d s (the code under test spins)" % limit, "case timeout", case, None, None, {})
    except Violation as v:
        rep.violation(v.what, v.key, case, None, None, v.detail)
    except Horizon as h:
        rep.violation("no progress: %s" % h, "horizon", case, None, None, {})
    except HarnessError:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return idx, None, traceback.format_exc()
    except Exception as e:
        rep.violation("unexpected %s: %s" % (type(e).__name__, short(str(e))), "unexpected %s" % type(e).__name__, case, None, None,
                      {"traceback": traceback.format_exc()[-3000:]})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return idx, rep, None


def load_known(prop):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("known", []) if k["property"] == prop]


def main(mod, argv):
    global _MOD
    _MOD = mod
    prop = mod.PROP
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = _now()
    for st in (sys.stdout, sys.stderr):
        st.reconfigure(errors="backslashreplace")
    if "--replay" in argv:
        return replay(mod, argv[argv.index("--replay") + 1])
    allcases = mod.cases(tier)
    if os.environ.get("MC_CASE"):
        allcases = [c for c in allcases if os.environ["MC_CASE"] in json.dumps(c)]
    limit = getattr(mod, "CASE_LIMIT", 240 if tier == "quick" else 800)
    jobs = [(i, c, limit) for i, c in enumerate(allcases)]
    results = [None] * len(jobs)
    errors = []
    known = load_known(prop)
    found, patience = False, 150 if tier == "quick" else 600

    def is_known(v):
        return next((k for k in known if k["key"] == v["key"] and (not k.get("case") or k["case"] == v["case"])), None)
    nproc = int(os.environ.get("MC_PROCS", "8"))
    if nproc <= 1 or len(jobs) == 1:
        it = map(_run_one, jobs)
        for idx, rep, err in it:
            results[idx] = rep
            if err:
                errors.append(err)
            found = found or rep is not None and any(not is_known(v) for v in rep.violations)
    else:
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        with ctx.Pool(min(nproc, len(jobs)), initializer=_init_worker) as pool:
            for idx, rep, err in pool.imap_unordered(_run_one, jobs, chunksize=max(1, len(jobs) // (nproc * 16))):
                results[idx] = rep
                if err:
                    errors.append(err)
                found = found or rep is not None and any(not is_known(v) for v in rep.violations)
                if found and (os.environ.get("MC_FIRST") or _now() - t0 > patience):
                    pool.terminate()    # the verdict is settled: do not wait for every case of a tree that is broken
                    break
    results = [r for r in results if r is not None]
    if errors:
        print(errors[0])
    if errors and not found:
        print("HARNESS-ERROR property=%s (%d cases)" % (prop, len(errors)))
        return 2
    total = Rep()
    for r in results:
        total.merge(r)
    new, hit = [], {}
    for v in total.violations:
        k = is_known(v)
        if k is None:
            new.append(v)
        else:
            hit[k["id"]] = k
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    evd = os.path.join(here, "evidence")
    os.makedirs(evd, exist_ok=True)
    cov = dict(
        evaluations=total.evaluations,
        distinct_nontrivial=len(total.nontrivial),
        rule=mod.RULE,
        samples=total.samples or [short(c) for c in allcases[:2]],
        cases=len(allcases),
        distinct_outcomes=len(total.outcomes),
        choice_points=total.choice_points,
        capped_runs=total.capped,
        exhaustive=total.capped == 0,
    )
    if mod.LEVEL == "model_checking" or total.states:
        cov.update(states=total.states, transitions=total.transitions, traces_validated_against_impl=total.traces)
    for k, v in sorted(total.extra.items()):
        cov.setdefault(k, v)
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=list(mod.ASSUMPTIONS), wall_s=round(_now() - t0, 3), violations=len(new))
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    if new:
        rdir = os.path.join(evd, "replay")
        os.makedirs(rdir, exist_ok=True)
        new.sort(key=lambda v: len(v["choices"] or []))
        path = os.path.join(rdir, prop + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, first=new[0], others=new[1:50]), f, indent=1, default=repr)
            f.write("\n")
        keys = {}
        for v in new:
            keys.setdefault(v["key"], v)
        for v in list(keys.values())[:8]:
            print("  %s" % v["what"][:700])
            print("    case=%s choices=%s" % (short(v["case"], 200), short(v["choices"], 200)))
            if v["detail"].get("traceback") and os.environ.get("MC_TB"):
                print(v["detail"]["traceback"])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, here)))
        return 1
    print("OK property=%s tier=%s cases=%d evaluations=%d distinct=%d states=%d transitions=%d choice_points=%d capped=%d wall=%.1fs" % (
        prop, tier, len(allcases), total.evaluations, len(total.nontrivial), total.states, total.transitions,
        total.choice_points, total.capped, _now() - t0))
    return 0


def replay(mod, path):
    with open(path) as f:
        data = json.load(f)
    v = data.get("first", data)
    os.environ["VERIF_TIER"] = data.get("tier", "quick")
    rep = Rep()
    want = v["choices"]
    case = v["case"]
    if want is not None and hasattr(mod, "replay_case"):
        mod.replay_case(case, want, rep)
    else:
        mod.run_case(case, rep)
    for x in rep.violations:
        if x["key"] == v["key"] and (want is None or x["choices"] == want):
            print(json.dumps(x, indent=1, default=repr))
            print("VIOLATION property=%s replay=%s" % (mod.PROP, path))
            return 1
    print("replay does not reproduce the violation")
    return 0
