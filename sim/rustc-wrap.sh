#!/bin/bash
# Adds callbacks to the library under simulation (and to nothing else): one for every basic block,
# one before every atomic operation and, in the fine build, one before every plain load and store.
case " $* " in
*" --crate-name crystsymm "*)
  fine=()
  if [ "${SIM_KIND:-}" = fine ]; then
    fine=(-C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores)
  fi
  exec "$@" -C "passes=function(tsan) sancov-module" -C llvm-args=-tsan-instrument-func-entry-exit=0 \
    -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard "${fine[@]}" ;;
*) exec "$@" ;;
esac
