#!/bin/bash
# inrepo.sh PATCH|- CMD...   run CMD with a patched copy of /repo mounted over /repo
# (private mount and network namespace; nothing of it remains).
P=$1; shift
[ "$P" = - ] || P=$(realpath "$P")
W=$(mktemp -d /tmp/inrepo.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
if [ "$P" != - ]; then git -C "$W/repo" apply "$P" || exit 97; fi
unshare -m -n bash -c 'ip link set lo up; mount --bind "$1" /repo; cd /repo; shift; exec "$@"' _ "$W/repo" "$@"
