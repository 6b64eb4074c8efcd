#!/bin/bash
# r.sh ID [cap] : explore verbosely, listing signatures
cd /verif; . /opt/vp/env.sh; export RUST_BACKTRACE=0
SIM_VERBOSE=1 SIM_CAP=${2:-25} SIM_COUNT=${3:-1000000} timeout 600 ./target/release/sim run $1 quick 2>&1 | grep -aE "sig|runs|VIOL|KNOWN|N [0-9]"|cut -c1-${4:-260} | awk '/sig [0-9]+ x/{n=$2; $1=$2=$3=""; c[$0]+=n; next} {print} END{for(k in c) print c[k], k}' | sort -rn | head -60
