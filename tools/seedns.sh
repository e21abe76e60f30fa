#!/bin/bash
# seedns.sh ID..: seed.sh for each ID in a private mount namespace over scratch copies of /repo, /opt/vp and /verif, so that
# several run side by side and the real trees are never touched.
for ID in "$@"; do
(
 W=$(mktemp -d /tmp/seedns.XXXXXX); mkdir $W/repo $W/vp $W/verif
 cp -a /repo/. $W/repo/; cp -a /opt/vp/. $W/vp/; cp -a /verif/. $W/verif/
 unshare -Urm bash -c "
  mount --bind $W/repo /repo && mount --bind $W/vp /opt/vp && mount --bind $W/verif /verif || exit 9
  mkdir $W/tmp; mount --bind $W/tmp /tmp; export SEEDOUT=/tmp
  cd /verif; bash tools/seed.sh $ID > /verif/out.txt 2>&1; tail -40 /tmp/seed_c.txt > /verif/chk.txt; cp /tmp/seed_b1.txt /tmp/seed_d0.txt /tmp/seed_d1.txt /verif/"
 cat $W/verif/out.txt; mkdir -p /tmp/seedlog; for f in out chk seed_b1 seed_d0 seed_d1; do cp $W/verif/$f.txt /tmp/seedlog/$ID.$f.txt; done
 case $W in /tmp/seedns.*) rm -rf "$W";; esac
) &
done; wait
