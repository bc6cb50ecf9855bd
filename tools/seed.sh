#!/bin/bash
# usage: seed.sh ID PROP NEEDS BREAKS FILE OLD NEW [FILE OLD NEW...] < demo.py
# Plants a bug: writes seeded/ID, confirms the demo on both trees, the tests on the patched one, and reports which checks notice.
id=$1 prop=$2 needs=$3 breaks=$4; shift 4
d=/verif/seeded/$id; mkdir -p $d
cat > $d/demo.py
cat > $d/demo.sh <<'X'
#!/bin/bash
exec ${PY:-PYBIN} "$(dirname "$0")/demo.py"
X
sed -i "s#\${PY:-PYBIN}#${PY:-/opt/venv-pb5/bin/python}#" $d/demo.sh
chmod +x $d/demo.sh
python3 - $d $prop "$needs" "$breaks" <<'P'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
P
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
(cd /repo; timeout 250 bash $d/demo.sh > /tmp/seed.clean 2>&1) || { echo "DEMO FAILS CLEAN"; tail -5 /tmp/seed.clean; exit 1; }
while [ $# -ge 3 ]; do
python3 - "/repo/$1" "$2" "$3" <<'P' || { git -C /repo checkout -q -- .; exit 1; }
import sys
f,o,n=sys.argv[1:4]
s=open(f).read()
assert s.count(o)>=1, "text not found in "+f
if s.count(o)>1: print("warning: text occurs", s.count(o), "times")
open(f,"w").write(s.replace(o,n,1))
P
shift 3
done
git -C /repo diff > $d/patch.diff
(cd /repo; timeout 250 bash $d/demo.sh > /tmp/seed.bad 2>&1) && { echo "DEMO PASSES PATCHED"; git -C /repo checkout -q -- .; exit 1; }
tail -1 /tmp/seed.bad | cut -c1-200
if [ "${T:-1}" = 1 ]; then bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.log 2>&1; tail -1 /tmp/seed.log; fi
(cd /verif; timeout 900 ./check $prop quick 2>&1 | grep -v '^KNOWN' | cut -c1-220 | head -2)
git -C /repo checkout -q -- .
