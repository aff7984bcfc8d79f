#!/bin/bash
# tools/tryseed.sh ID [check]: confirms planted bug ID in a scratch copy of /repo and runs its property's check on it
ID=$1; D=/verif/seeded/$ID; S=/tmp/scr.$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p $S; cp -a /repo $S/; cp -a $D $S/demo; mkdir $S/v; cp /verif/known_findings.txt $S/v/
[ -d /verif/findings ] && cp -a /verif/findings $S/v/
unshare -Urm bash -c "mount --bind $S/repo /repo; cd /repo; git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
 $S/demo/demo.sh >$S/o 2>&1; a=\$?; echo \"clean demo: \$a\"; [ \$a = 0 ] || tail -5 $S/o
 git apply $D/patch.diff || exit 1
 bash /opt/vp/test.sh $S/t.json 2>/dev/null | tail -1; $S/demo/demo.sh >$S/o 2>&1; a=\$?; echo \"patched demo: \$a\"; tail -3 $S/o
 [ '$2' = check ] || exit 0
 for p in ${3:-$P}; do SIM_BUILD=$S/b SIM_VERIF=$S/v /verif/check.sh \$p quick 2>&1 | grep -v '^evidence' | tail -4; done"
rm -r $S
