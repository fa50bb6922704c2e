#!/bin/bash
# priv.sh NAME COMMAND…: run a command with private copies of /repo and /verif mounted over the originals
w=/tmp/priv/$1; shift
mkdir -p $w/vpwork $w/repo $w/verif
if command -v rsync >/dev/null; then rsync -a --delete /repo/ $w/repo/; rsync -a --delete /verif/ $w/verif/; else cp -au /repo/. $w/repo/; cp -au /verif/. $w/verif/; fi
exec unshare -Urm sh -c 'mount --bind '$w'/repo /repo && mount --bind '$w'/verif /verif && mount --bind '$w'/vpwork /opt/vp/work && cd /verif && exec "$@"' sh "$@"
