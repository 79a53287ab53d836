#!/bin/bash
# check.sh PROPERTY TIER: rebuild from /repo's working tree, then explore.
cd /verif || exit 2
bash build.sh >/dev/null 2>/tmp/mentat-sim-build.$$ || { tail -40 /tmp/mentat-sim-build.$$ >&2; exit 2; }
rm -f /tmp/mentat-sim-build.$$
exec /verif/target/debug/mentat-sim check "$1" "$2"
