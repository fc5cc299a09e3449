#!/bin/bash
# newseed.sh ID PROP needs breaks < demo.py ; edits.json prepared by caller afterwards
d=/verif/seeded/$1; mkdir -p $d; cat > $d/demo.py
cat > $d/demo.sh <<'X'
#!/bin/bash
# run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD/src:$here" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/demo.py"
X
cp /verif/tools/demo_fake.py $d/fake.py
python3 - "$@" <<'X'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
X
