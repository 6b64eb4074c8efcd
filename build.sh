#!/bin/bash
# Build the simulator and the real `hugr` binary from /repo's working tree into
# /verif/target. Exit status 0 when both are up to date.
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR=$V/target RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg verif_hooks"
mkdir -p "$V/target"
# cargo decides by modification time; make sure that changed contents are never
# missed because of a file that kept an old time
sum=$(cd "$REPO" && find hugr hugr-cli hugr-core hugr-model hugr-passes hugr-persistent Cargo.toml Cargo.lock \
    -type f -not -path '*/target/*' -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ -f "$V/target/.contents" ] && [ "$(cat "$V/target/.contents")" != "$sum" ]; then
    for d in "$V"/target/release/.fingerprint/hugr*; do [ -d "$d" ] && rm -rf "$d"; done
fi
cd "$V/sim" || exit 2
out=$(cargo build --release --offline 2>&1); rc=$?
if [ $rc != 0 ]; then
    echo "$out" | grep -aE '^error' -A12 | head -60
    echo "build failed"
    exit 2
fi
gcc -shared -fPIC -O1 -o "$V/target/shim.so.new" shim/shim.c && mv "$V/target/shim.so.new" "$V/target/shim.so" || { echo "build of the shim failed"; exit 2; }
echo "$sum" > "$V/target/.contents"
exit 0
