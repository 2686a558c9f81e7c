#!/bin/bash
# tryseed.sh NAME [ID...]: in a private mount namespace, with copies of /repo and /verif bound over the originals: does the planted
# change build, pass the repository's tests, fail its demonstration, and is it caught by its property's check (and the others named)?
N=$1; shift
S=/tmp/seedtry_$N
mkdir -p $S; cp -a /repo $S/repo; cp -a /verif $S/verif
IDS="$(python3 -c "import json;print(json.load(open('/verif/seeded/$N/meta.json'))['property'])") $*"
unshare -m bash -c '
S='$S'; N='$N'
mount --bind $S/repo /repo && mount --bind $S/verif /verif || exit 9
cd /repo
if [ -z "$SKIPBASE" ]; then bash /opt/vp/build.sh >$S/b0.log 2>&1; bash /verif/seeded/$N/demo.sh >$S/d0.log 2>&1; echo "$N demo on clean tree: $?"; fi
git apply /verif/seeded/$N/patch.diff || { echo "$N patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$S/b.log 2>&1 || { echo "$N does not build"; tail -20 $S/b.log; exit 1; }
bash /verif/seeded/$N/demo.sh >$S/d.log 2>&1; echo "$N demo with the patch: $?"
[ -z "$SKIPTEST" ] && { bash /opt/vp/test.sh $S/o.json >$S/t.log 2>&1; tail -1 $S/t.log | sed "s/^/$N tests: /"; }
cd /verif
for i in '"$IDS"'; do python3 bin/check $i >$S/c_$i.log 2>&1; echo "$N check $i exit $? $(grep -c ^VIOLATION $S/c_$i.log) violations; $(grep -m1 violations.of $S/c_$i.log)"; done
'
rm -rf /tmp/seedtry_$N/repo /tmp/seedtry_$N/verif
