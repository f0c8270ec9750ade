#!/bin/bash
# instrument only the repository's crates and the harness
rustc=$1; shift
case " $* " in
 *" --crate-name smdiff_"*|*" --crate-name vpf "*) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1 --cfg fuzzing ;;
 *) exec "$rustc" "$@" ;;
esac
