#!/bin/bash
# lab.sh NAME COMMAND...: runs a command with private copies of /repo, /verif and /opt/vp mounted over the real ones.
n=/tmp/lab/$1; shift
mkdir -p $n
for d in repo verif; do
  mkdir -p $n/$d
  rsync -rlpc --delete $([ $d = verif ] && echo --exclude .git) --exclude /target --exclude /build --exclude evidence --exclude seeded /$d/ $n/$d/ 2>/dev/null || { cp -au /$d/. $n/$d/; }
done
mkdir -p $n/verif/evidence $n/verif/build
[ -d $n/vp ] || cp -a /opt/vp $n/vp
exec unshare -m bash -c "mount --bind $n/repo /repo && mount --bind $n/verif /verif && mount --bind $n/vp /opt/vp && cd /verif && exec \"\$@\"" -- "$@"
