#!/bin/bash
# nsrun.sh MUTFILE ID CMD…: run CMD in /verif copy with the mutant applied, isolated
D=${MNS:-/dev/shm/mutns}; mkdir -p $D/repo $D/verif
rsync -a --delete /repo/ $D/repo/; git -C $D/repo checkout -q -- .
rsync -a --delete --exclude evidence /verif/ $D/verif/; mkdir -p $D/verif/evidence
F=$1; I=$2; shift 2
exec unshare -Urm bash -c "mount --bind $D/repo /repo; mount --bind $D/verif /verif; cd /verif; python3 .cache/one.py $F $I; $*"
