#!/bin/bash
# usage: mut.sh PID file 'old' 'new' : replaces text in /repo (uncommitted), runs the quick check, restores
f=/repo/$2
cp "$f" /tmp/mut.bak
python3 - "$f" "$3" "$4" <<'P'
import sys
f,o,n=sys.argv[1:4]
s=open(f).read()
assert o in s, "text not found"
open(f,"w").write(s.replace(o,n,1))
P
[ $? = 0 ] && (cd /verif; timeout 900 ./check $1 quick 2>&1 | grep -v '^KNOWN' | cut -c1-${W:-260} | head -${L:-3})
cp /tmp/mut.bak "$f"
