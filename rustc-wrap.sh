#!/bin/bash
# Compiles the simulator, the crate under test and the crates whose generic code they share with
# LLVM's thread instrumentation, whose callbacks are /verif/seams/tsanrt; everything else without.
rustc=$1
shift
name= prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    prev=$a
done
case "$name" in
sim | probabilistic_collections | siphasher)
    exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer
    ;;
build_script_build | "" | ___)
    exec "$rustc" "$@"
    ;;
*)
    exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer
    ;;
esac
