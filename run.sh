#!/bin/bash
# usage: run.sh <property> [quick|thorough]
# Rebuilds the harness against /repo's working tree and runs one check.
. /verif/env.sh
cd /verif/harness || exit 2
log=$(mktemp /tmp/vh-build.XXXXXX)
if ! cargo build --release --offline >"$log" 2>&1; then
  tail -60 "$log"
  echo "ERROR: the harness does not build against /repo"
  exit 2
fi
/usr/bin/rm -f "$log"
exec timeout 890 /verif/harness/target/release/vh check "$1" ${2:-${VERIF_TIER:-quick}}
