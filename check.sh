#!/bin/bash
# check.sh PROPERTY   (tier and seed from VERIF_TIER / VERIF_SEED)
# Rebuilds the simulator against /repo's working tree, then runs the check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true
cd "$here/sim" || exit 2
mkdir -p "$here/sim/work"
log="$here/sim/work/build.$$.log"
# cargo goes by modification times; go by content, too
sum="$(find /repo/source -type f \( -name '*.rs' -o -name '*.toml' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat "$here/sim/work/sources.sum" 2>/dev/null)" != "$sum" ]; then
    cargo clean --offline -p postcard-rpc >/dev/null 2>&1
    cargo clean --offline -p prpc-sim >/dev/null 2>&1
fi
# (a tree that does not go with the hooks of sim_sync.rs is simulated without them)
if ! cargo build --offline >"$log" 2>&1 && ! RUSTFLAGS="--cfg tokio_unstable" cargo build --offline >"$log" 2>&1; then
    tail -60 "$log" >&2
    echo "check.sh: the simulator does not build against /repo" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
echo "$sum" >"$here/sim/work/sources.sum"
exec "$here/sim/target/debug/prpc-sim" check "$1"
