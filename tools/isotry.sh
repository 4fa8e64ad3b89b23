#!/bin/bash
# isotry.sh ID...: tools/tryseed.sh in private copies of /repo and /verif (own mount namespace), so
# that the real trees can be edited meanwhile. ISO names the copy (several may run side by side).
I=/tmp/w/iso${ISO:-0}; mkdir -p $I
rsync -a --delete /repo/ $I/repo/
rsync -a --delete --exclude replays --exclude evidence /verif/ $I/verif/
export ISOIDS="$*" I
exec unshare -rm bash -c 'mount --bind $I/repo /repo && mount --bind $I/verif /verif && mkdir -p $I/tmp && mount --bind $I/tmp /tmp/w && cd /verif && tools/tryseed.sh $ISOIDS'
