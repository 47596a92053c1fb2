#!/bin/bash
# development aid: every distinct failure of a property, shrunk
. /verif/env.sh
cd /verif/harness && cargo build --release --offline 2>&1 | grep -E "^error|^warning: unused" -A8
/usr/bin/find /verif/replays -name "$1-*" -delete 2>/dev/null
VH_KEEP_GOING=1 VH_CASES=$2 VERIF_SEED=${3:-1} timeout 850 /verif/harness/target/release/vh check $1 > /tmp/o.txt 2>&1
grep -E "ERROR|cases" /tmp/o.txt
for f in /verif/replays/$1-*; do [ -f $f ] || continue; echo "=================== $f"; grep -E "^(sig|msg)=" $f | cut -c1-600; sed -n '/--- case/,$p' $f | sed 1d | head -${4:-18} | cut -c1-500; done
