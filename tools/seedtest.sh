#!/bin/bash
# seedtest.sh ID [-n] [CHECK...]: validates a planted bug in overlays of /repo and /verif, thrown away afterwards.
# -n: without the repository's tests.  CHECK: c01 ... to run against the planted bug.
id=$1; shift
notests=; [ "$1" = -n ] && { notests=1; shift; }
t=$(mktemp -d /tmp/seed.XXXXXX)
mkdir $t/ru $t/rw $t/vu $t/vw $t/demo
cp -a /verif/seeded/$id/. $t/demo; rm -f $t/demo/*.diff $t/demo/meta.json
export t id notests
unshare -Urm bash -c '
mount -t overlay overlay -o lowerdir=/repo,upperdir=$t/ru,workdir=$t/rw /repo
mount -t overlay overlay -o lowerdir=/verif,upperdir=$t/vu,workdir=$t/vw /verif
cd /repo
if ! bash $t/demo/demo.sh >$t/o 2>&1; then echo "$id: DEMO FAILS UNPATCHED"; tail -5 $t/o; exit 1; fi
git apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/build.sh >$t/build.log 2>&1 || { echo "$id: does not build"; tail -20 $t/build.log; exit 1; }
cd /repo
if bash $t/demo/demo.sh >$t/o 2>&1; then echo "$id: DEMO PASSES PATCHED"; cat $t/o; exit 1; fi
echo "$id: demo ok: $(tail -1 $t/o)"
if [ -z "$notests" ]; then
bash /opt/vp/test.sh $t/t.json >$t/test.log 2>&1
python3 - $t/t.json <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open(sys.argv[1]))
k=[x for x in b if isinstance(b[x],list)] 
base=set(b.get("passed") or b[k[0]])
m=sorted(base-set(t["passed"]))
print("$id: tests:", "ok" if not m else "FAIL %d %s"%(len(m),m[:8]))
P
fi
cp -a /verif/.build $t/build; export VK_BUILD=$t/build
for c in "$@"; do
  VERIF_SEED=1 VERIF_TIER=quick python3 /verif/checks/$c.py >$t/c.log 2>&1; rc=$?; [ $rc = 2 ] && tail -5 $t/c.log; echo "$id: $c exit $rc $(grep -m1 VIOLATION $t/c.log)"; grep -m2 rejected $t/c.log | cut -c1-300
done
' x "$@"
rm -rf $t
