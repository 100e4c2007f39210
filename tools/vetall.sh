#!/bin/bash
# vetall.sh [ids...]: vet several planted bugs, 4 at a time
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(ls seeded)
printf '%s\n' "$@" | xargs -P 4 -I{} tools/vetbug.sh {} $VETFLAGS
