#!/bin/bash
# fo.sh ID SIG [cap]: explore, then minimise and show one violation whose signature contains SIG; F=dump also shows the programs
cd /verif; . /opt/vp/env.sh; export RUST_BACKTRACE=0
o=$(SIM_COUNT=1000000 SIM_FOCUS="$2" SIM_CAP=${3:-15} timeout 600 ./target/release/sim run $1 quick 2>&1 | grep -av KNOWN | cut -c1-900)
echo "$o" | grep -a -A4 "^violation"
f=$(echo "$o" | grep -ao "replay=.*" | head -1 | cut -d= -f2)
if [ -n "$f" ] && [ -n "$F" ]; then cp "$f" /tmp/fo.json; SIM_DUMP=1 ./target/release/sim replay $f 2>&1 | grep -av KNOWN | tail -$F | cut -c1-${W:-220}; fi
