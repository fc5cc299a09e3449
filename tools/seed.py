"""Confirm a planted bug: seed.py ID [--checks P01,P02|none]
The folder /verif/seeded/ID must hold edits.json ([[path, old, new], ...]) or patch.diff, demo.sh and meta.json.
It makes patch.diff, confirms build + tests + demo in a scratch worktree-like copy and runs the checks on it."""
import json, os, subprocess, sys, shutil
V = "/verif"; sid = sys.argv[1]; D = f"{V}/seeded/{sid}"
checks = None
if "--checks" in sys.argv: checks = sys.argv[sys.argv.index("--checks") + 1].split(",")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def die(m):
    sh("git -C /repo checkout -- ."); print("SEED", sid, "BAD:", m); sys.exit(1)
if sh("git -C /repo status --porcelain").stdout.strip(): die("repo dirty")
meta = json.load(open(D + "/meta.json"))
e = D + "/edits.json"
if os.path.exists(e):
    for path, old, new in json.load(open(e)):
        p = "/repo/" + path; s = open(p).read()
        if s.count(old) != 1: die(f"{s.count(old)} matches for {old!r}")
        open(p, "w").write(s.replace(old, new))
    open(D + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    os.remove(e); sh("git -C /repo checkout -- .")
# demo clean
r = sh(f"timeout 300 bash {D}/demo.sh", cwd="/repo")
if r.returncode: die("demo fails on clean tree\n" + r.stdout[-1500:] + r.stderr[-1500:])
r = sh(f"git -C /repo apply {D}/patch.diff")
if r.returncode: die("patch: " + r.stderr)
r = sh("bash /opt/vp/build.sh")
if r.returncode: die("build: " + r.stderr)
r = sh("bash /opt/vp/test.sh /tmp/seed_o.json"); o = json.load(open("/tmp/seed_o.json"))
base = json.load(open("/opt/vp/BASELINE.json"))
if o["failed"] or len(o["passed"]) < 351: die("tests: " + str(o["failed"])[:500])
r = sh(f"timeout 300 bash {D}/demo.sh", cwd="/repo")
if r.returncode == 0: die("demo passes with the patch")
print("demo:", r.returncode, (r.stdout + r.stderr).strip()[-200:].replace(chr(10), " "))
sh("rm -rf /tmp/seedsrc; mkdir /tmp/seedsrc; cp -a /repo/src /tmp/seedsrc/src; git -C /repo checkout -- .")
for c in checks or [meta["property"]]:
    if c == "none": continue
    r = sh(f"/opt/venv/bin/python run.py {c} --quick", cwd=V, env=dict(os.environ, PYPSRP_SRC="/tmp/seedsrc/src"))
    line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")][:1]
    print("SEED", sid, c, "CAUGHT" if r.returncode == 1 and line else f"MISSED rc={r.returncode}", (line or [r.stderr[-300:]])[0][:250])
sh("bash /opt/vp/build.sh")
