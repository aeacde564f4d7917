#!/bin/bash
# cargo rustc-wrapper: compiles the four library crates of /repo with an edge callback
# (SanitizerCoverage trace-pc-guard) so that the simulator owns a pre-emption point, a step
# counter and a coverage counter at every basic block of the code under test.  Nothing else is
# compiled differently, and /repo's sources are untouched.
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ]; then
    case "$a" in
      gmatlib|geqslib|nexsys|neapolitan)
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
          -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1 ;;
    esac
  fi
  prev="$a"
done
exec "$@"
