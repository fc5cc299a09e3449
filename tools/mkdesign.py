"""Write DESIGN.md from its prose (tools/design_head.md, tools/design_tail.md), properties, manifest, findings and seeds."""
import glob, json, os, sys
V = "/verif"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
kf = json.load(open(V + "/known_findings.json"))
sys.path.insert(0, V + "/tools")
from design_notes import NOTES
by = {c["property"]: c for c in man["checks"]}
out = [open(V + "/tools/design_head.md").read()]
seeds = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
out.append("## 3. The properties, one by one\n")
for p in props:
    i = p["id"]; c = by.get(i)
    out.append("### %s %s\n" % (i, p["title"]))
    n = NOTES[i]
    out.append("- **Decided by** %s." % c["technique"].rstrip("."))
    out.append("- **Oracle.** %s" % n["oracle"])
    out.append("- **Bounds.** %s" % c["level_note"] if "level_note" in c else "- **Bounds.** %s" % c.get("note", ""))
    out.append("- **Cost.** %s" % n["cost"])
    out.append("- **Why the tests cannot settle it.** %s" % n["why"])
    if n.get("limits"):
        out.append("- **Not covered.** %s" % n["limits"])
    f = [x for x in kf["fixed"] if x["property"] == i]
    if f:
        out.append("- **Genuine defects found and repaired.** " + "; ".join("%s (%s)" % (x["what"], x["commit"]) for x in f) + ".")
    k = [x for x in kf["known"] if x["property"] == i]
    for x in k:
        out.append("- **Known finding %s.** %s." % (x["id"], x["what"]))
    if seeds.get(i):
        out.append("- **Planted bugs.** " + "; ".join("`%s` (%s)" % (s, m.get("what_it_breaks", "")) for s, m in seeds[i]) + ".")
    out.append("")
out.append(open(V + "/tools/design_tail.md").read())
out.append("\n## Catch matrix of the planted bugs\n\n| seed | property | caught by |\n|---|---|---|")
cm = json.load(open(V + "/tools/catches.json")) if os.path.exists(V + "/tools/catches.json") else {}
for i in sorted(seeds):
    for s, m in seeds[i]:
        out.append("| %s | %s | %s |" % (s, i, ", ".join(cm.get(s, [i]))))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
