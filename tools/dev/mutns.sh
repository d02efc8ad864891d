#!/bin/bash
# mutns.sh FILE.py [ids]: mut.py on isolated copies of /repo and /verif (committed+working tree), leaving both alone
set -e
D=${MNS:-/dev/shm/mutns}; mkdir -p $D/repo $D/verif
rsync -a --delete /repo/ $D/repo/ 2>/dev/null || { cp -a /repo/. $D/repo/; }
git -C $D/repo checkout -q -- .
rsync -a --delete --exclude evidence /verif/ $D/verif/ 2>/dev/null || cp -a /verif/. $D/verif/
mkdir -p $D/verif/evidence
exec unshare -Urm bash -c "mount --bind $D/repo /repo; mount --bind $D/verif /verif; cd /verif; python3 .cache/mut.py $*"
