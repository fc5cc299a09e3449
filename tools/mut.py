"""mut.py PXX[,PYY] FILE OLD NEW: run checks against a scratch copy of the source with one textual change."""
import os, shutil, subprocess, sys
ids, path, old, new = sys.argv[1:5]
d = "/tmp/mut%d" % os.getpid()
shutil.copytree("/repo/src", d)
try:
    p = os.path.join(d, "pypsrp", path)
    s = open(p).read()
    assert s.count(old) >= 1, "text not found"
    open(p, "w").write(s.replace(old, new, 1))
    for i in ids.split(","):
        r = subprocess.run(["/opt/venv/bin/python", "/verif/run.py", i], env=dict(os.environ, PYPSRP_SRC=d, MC_EVIDENCE="/tmp/mutev"), capture_output=True, text=True)
        print(i, "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED rc=%d" % r.returncode, (r.stdout.strip().splitlines() or [r.stderr[-300:]])[0][:160])
finally:
    shutil.rmtree(d)
