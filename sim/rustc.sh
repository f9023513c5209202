#!/bin/sh
# Compiler wrapper: instruments the code under test, and nothing else
instrument=
prev=
for a in "$@"; do
    case "$prev $a" in
        "--crate-name firrtl_ast") instrument=1 ;;
    esac
    prev=$a
done
if [ -n "$instrument" ]; then
    exec "$@" "-Cpasses=sancov-module,function(tsan)" \
        -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-handle-cxx-exceptions=0
fi
exec "$@"
