#!/bin/bash
# check.sh <property>: build from /repo's current tree and search. Tier and seed come from the environment.
V=$(cd "$(dirname "$0")" && pwd)
P=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
B=$V/target/sim/x86_64-unknown-linux-gnu/release/bbsim
log=$V/target/build-$P.log; mkdir -p "$V/target"
if ! bash "$V/build.sh" $P >"$log" 2>&1; then tail -40 "$log" >&2; echo "build failed" >&2; exit 2; fi
[ "$P" = C14 ] && exec python3-vt "$V/py/c14.py" run "$V" "$TIER" "$SEED"
exec "$B" run --prop "$P" --tier "$TIER" --seed "$SEED" --verif "$V"
