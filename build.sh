#!/bin/bash
# Build the simulator against /repo's current working tree. Usage: build.sh <property>
set -e
V=$(cd "$(dirname "$0")" && pwd)
R=${BB_REPO:-/repo}
T=$V/target
P=$1
mkdir -p "$T"
exec 9>"$T/.buildlock"; flock 9
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR BB_LINK_OBJ
TGT=x86_64-unknown-linux-gnu
# never trust time stamps of the code under test
find "$T" -maxdepth 5 -type d -path '*.fingerprint/bitboost-*' -prune -exec rm -rf {} + 2>/dev/null || true
case $P in C14|all)
    # the shared library as users build it, for the Python wrapper
    (cd "$R" && cargo build --offline --release --lib --target-dir "$T/py" -q)
    clang -O2 -Wall -shared -fPIC -o "$T/py/libshim.so.tmp" "$V/py/shim.c" -ldl && mv "$T/py/libshim.so.tmp" "$T/py/libshim.so"
    ;;
esac
[ "$P" = C14 ] && exit 0
export RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER=$V/sim/rustc_wrapper.sh
(cd "$V/sim" && cargo build --offline --release --target $TGT --target-dir "$T/sim" -q)
case $P in C08|C12|C13|all)
    mkdir -p "$T/cliobj"
    for o in simrt simrt_cli; do
        [ "$T/cliobj/$o.o" -nt "$V/sim/rt/$o.c" ] || { clang -O2 -g1 -fPIC -Wall -c "$V/sim/rt/$o.c" -o "$T/cliobj/$o.o.tmp"; mv "$T/cliobj/$o.o.tmp" "$T/cliobj/$o.o"; }
    done
    export BB_LINK_OBJ="$T/cliobj/simrt.o $T/cliobj/simrt_cli.o"
    (cd "$R" && cargo build --offline --release --bins --target $TGT --target-dir "$T/cli" -q)
    ;;
esac
