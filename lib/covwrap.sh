#!/bin/sh
# cargo runs this in place of rustc: libronda alone is compiled with coverage counters, which replay/src/guided.rs reads
rustc=$1; shift
case " $* " in
*" --crate-name ronda "*) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares ;;
*) exec "$rustc" "$@" ;;
esac
