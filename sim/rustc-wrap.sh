#!/bin/bash
# Compiler wrapper: has the atomic operations (only those) of the library and of its callers instrumented.
rustc=$1; shift
case " $* " in
*" --crate-name zarr "* | *" --crate-name zops "*)
  export RUSTC_BOOTSTRAP=1
  exec "$rustc" "$@" -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer \
    -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 ;;
*" --crate-name zsim "* | *" --crate-name zcore "*) exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
exec "$rustc" "$@"
