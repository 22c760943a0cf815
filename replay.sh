#!/bin/bash
# replay.sh <file>: re-run one recorded violation against /repo's current tree.
V=$(cd "$(dirname "$0")" && pwd)
P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$1")
bash "$V/build.sh" $P >&2 || exit 2
[ "$P" = C14 ] && exec python3-vt "$V/py/c14.py" replay "$V" "$1"
exec "$V/target/sim/x86_64-unknown-linux-gnu/release/bbsim" replay "$1"
