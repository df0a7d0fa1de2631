#!/bin/bash
# tools/seed.sh ID PROPERTY "needs" "what it breaks": takes the edit made in the
# scratch copy /tmp/sw, confirms it builds, passes the tests, and that
# seeded/ID/demo.cpp (and the common demo.sh) fails with it and passes in /repo.
set -u
id=$1; d=/verif/seeded/$id; mkdir -p $d
cd /tmp/sw || exit 2
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no edit"; exit 2; }
[ -f $d/demo.sh ] || cp /verif/tools/demo.sh $d/demo.sh
. /opt/vp/env.sh
ninja -C _build -j8 > /tmp/sw.log 2>&1 || { tail -30 /tmp/sw.log; echo BUILD FAILED; exit 1; }
ctest --test-dir _build -j8 --timeout 120 > /tmp/sw.tlog 2>&1 || { grep -E "Failed|\*\*\*" /tmp/sw.tlog | head; echo TESTS FAILED; exit 1; }
bash $d/demo.sh > /tmp/sw.d1 2>&1; r1=$?
cd /repo; bash $d/demo.sh > /tmp/sw.d0 2>&1; r0=$?
echo "$id: demo patched=$r1 unchanged=$r0"; tail -3 /tmp/sw.d1; [ $r0 != 0 ] && tail -5 /tmp/sw.d0
python3 - "$@" <<'P'
import json,sys
_,i,p,n,w=sys.argv
json.dump(dict(property=p,needs=n,what_it_breaks=w),open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
cd /tmp/sw; git checkout -q -- .
[ $r0 = 0 ] && [ $r1 != 0 ] && echo KEEP || echo REJECT
