#!/bin/bash
# cargo calls: wrapper <rustc> <args...>. Adds ThreadSanitizer *instrumentation* (callbacks only, the
# runtime is simrt's) to the crates under test; everything else must only accept linking with them.
rustc=$1; shift
name=; target=; prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    [ "$prev" = --target ] && target=$a
    case $a in --target=*) target=${a#--target=};; esac
    prev=$a
done
[ -z "$target" ] && exec "$rustc" "$@"
extra=(-Cunsafe-allow-abi-mismatch=sanitizer)
case $name in
    bitboost|run_bitboost|bitboost_gen_config_csv) extra+=(-Zsanitizer=thread -Zexternal-clangrt);;
esac
if [ -n "$BB_LINK_OBJ" ]; then
    case $name in run_bitboost|bitboost_gen_config_csv)
        for o in $BB_LINK_OBJ; do extra+=("-Clink-arg=$o"); done;;
    esac
fi
exec "$rustc" "$@" "${extra[@]}"
