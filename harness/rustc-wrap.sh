#!/bin/bash
# RUSTC_WRAPPER: adds coverage and comparison instrumentation to the crate under test only.
rustc="$1"; shift
case " $* " in
*" --crate-name kiss_xml "*)
	exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares -Cllvm-args=-sanitizer-coverage-prune-blocks=0;;
esac
exec "$rustc" "$@"
