import json
p='/verif/known_findings.json'
d=json.load(open(p))
import sys
prop,commit,what=sys.argv[1:4]
d['fixed'].append({"line":"fixed: property=%s %s %s"%(prop,commit,what),"property":prop,"commit":commit,"what":what})
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
