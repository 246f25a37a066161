#!/bin/bash
# check.sh PROPERTY quick|thorough : builds /repo's working tree with the monitors and runs the check.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
bin=harness/target/debug
if [ "$1" = P28 ]; then
    export VERIF_SANITIZER=address ASAN_OPTIONS=detect_leaks=0:quarantine_size_mb=64:detect_stack_use_after_return=1
    bin=harness/target/asan/x86_64-unknown-linux-gnu/debug
fi
bash "$here/build.sh" || { echo "the harness does not build" >&2; exit 2; }
exec "$here/$bin/monitor" check "$1" "${2:-quick}"
