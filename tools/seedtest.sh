#!/bin/bash
# seedtest.sh ID [check PROP...] : validates seeded/ID in a private copy of /repo bind-mounted over /repo (own mount namespace)
ID=$1; shift
D=/tmp/seedrun_$ID; S=/verif/seeded/$ID
rm -rf "/tmp/seedrun_$ID"; cp -a /repo $D
cat > $D.sh <<'X'
ID=$1; D=$2; S=$3; shift 3
mount --bind $D /repo || exit 9
cd /repo
mkdir -p $D.demo; cp $S/* $D.demo/ ; rm -f $D.demo/*.diff $D.demo/meta.json
timeout 300 bash $D.demo/demo.sh > $D.demo0.log 2>&1; echo "demo clean: $?"
git apply $S/patch.diff || { echo "patch does not apply"; exit 8; }
timeout 1500 bash /opt/vp/build.sh > $D.build.log 2>&1; echo "build: $?"
timeout 900 bash /opt/vp/test.sh $D.json > $D.test.log 2>&1; tail -1 $D.test.log
timeout 300 bash $D.demo/demo.sh > $D.demo1.log 2>&1; echo "demo patched: $?"; tail -2 $D.demo1.log
cd /verif
for p in "$@"; do VC_WORK=$D.work timeout 900 python3-vt vc/check.py $p | cut -c1-250 | tail -6; done
X
unshare -rm bash $D.sh $ID $D $S "$@" 2>&1 | sed "s/^/[$ID] /"
rm -rf "/tmp/seedrun_$ID" "/tmp/seedrun_$ID.demo" "/tmp/seedrun_$ID.work" "/tmp/seedrun_$ID.json"
