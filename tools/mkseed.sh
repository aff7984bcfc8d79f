#!/bin/bash
# tools/mkseed.sh ID: takes the edit made in /tmp/scr/repo as planted bug ID
set -e
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/scr/repo diff > $D/patch.diff; [ -s $D/patch.diff ]
git -C /tmp/scr/repo checkout -q -- .
N=${N:-2}
{ sed -n '1,2p' /verif/tools/seedkit/run.sh; echo "N=$N"; sed -n '3,$p' /verif/tools/seedkit/run.sh; } > $D/demo.sh; chmod +x $D/demo.sh
