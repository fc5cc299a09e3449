"""CPU per case kind of a check: python tools/timing.py P09 [--thorough]"""
import collections, importlib, os, sys, time, json
sys.path.insert(0, "/verif")
pid = sys.argv[1]
os.environ["VERIF_TIER"] = "thorough" if "--thorough" in sys.argv else "quick"
import mc.env
import glob
m = [f for f in glob.glob("/verif/mc/checks/%s_*.py" % pid.lower())][0]
mod = importlib.import_module("mc.checks." + os.path.basename(m)[:-3])
from mc import core
import multiprocessing as mp
core._MOD = mod
def one(a):
    t = time.process_time()
    i, rep, err = core._run_one(a)
    return a[1], time.process_time() - t, rep.evaluations if rep else 0
if __name__ == "__main__":
    cs = mod.cases(os.environ["VERIF_TIER"])
    if os.environ.get("MC_CASE"):
        cs = [c for c in cs if os.environ["MC_CASE"] in json.dumps(c)]
    T, N, X, E = collections.Counter(), collections.Counter(), {}, collections.Counter()
    with mp.get_context("fork").Pool(8) as pool:
        for c, t, e in pool.imap_unordered(one, [(i, c, 900) for i, c in enumerate(cs)]):
            T[c[0]] += t; N[c[0]] += 1; E[c[0]] += e
            if t > X.get(c[0], (0,))[0]:
                X[c[0]] = (t, c)
    for k in T:
        print("%-14s cases=%d evals=%d cpu=%.1f max=%.1f %s" % (k, N[k], E[k], T[k], X[k][0], str(X[k][1])[:120]))
