#!/bin/bash
# replay.sh FILE: carry out a recorded failure again; exit 1 if it still fails.
cd /verif || exit 2
bash build.sh >/dev/null 2>/tmp/mentat-sim-build.$$ || { tail -40 /tmp/mentat-sim-build.$$ >&2; exit 2; }
rm -f /tmp/mentat-sim-build.$$
exec /verif/target/debug/mentat-sim replay "$1"
