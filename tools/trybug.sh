#!/bin/bash
# trybug.sh ID [nocheck]: validates a planted bug in a scratch copy: patch applies, demo passes without it and fails with it, and what the property's check says
root=$(cd "$(dirname "$0")/.." && pwd); id=$1; d=$root/seeded/$id; w=/tmp/trybug_$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
mkdir -p $w; cp -a /repo/include /repo/src /repo/tests /repo/examples $w/ 2>/dev/null; cd $w
bash $d/demo.sh >/tmp/trybug_$id.out 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: PATCH FAILS"; exit 1; }
bash $d/demo.sh >>/tmp/trybug_$id.out 2>&1; b=$?
t=""; [ "$2" = nocheck ] || { [ -f src/test_lu_fact.cpp ]; }
c=-; if [ "$2" != nocheck ]; then (cd $root; VERIF_REPO=$w VERIF_BUILD=/tmp/trybug_b_$id timeout 1200 python3 check.py $prop > /tmp/trybug_$id.chk 2>&1); c=$?; fi
echo "$id ($prop): demo clean=$a patched=$b check=$c $(grep -h '^VIOLATION\|INCONCL' /tmp/trybug_$id.chk 2>/dev/null | head -2 | cut -c1-200)"
[ "$2" = nocheck ] || VROOT=$root python3 - $id $prop $c <<'P'
import json,sys,os
f=os.environ["VROOT"]+"/tools/bug_results.json"; r=json.load(open(f)) if os.path.exists(f) else {}
id,prop,c=sys.argv[1:4]; h=sorted({l.strip().split(":")[0] for l in open("/tmp/trybug_%s.chk"%id) if l.startswith("  ") and not l.startswith("   ") and "INCONCL" not in l})
r[id]=(prop+" ("+", ".join(h[:4])+")") if c=="1" else "missed" if c=="0" else "inconclusive"
json.dump(r,open(f,"w"),indent=1,sort_keys=True)
P
[ $a = 0 ] && [ $b != 0 ] || tail -5 /tmp/trybug_$id.out
rm -rf /tmp/trybug_$id /tmp/trybug_b_$id
