#!/bin/bash
# check.sh <property> [replay-file]: builds the harness against /repo's working tree and runs one check
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER="$PWD/harness/rustc-wrap.sh" CARGO_NET_OFFLINE=true
mkdir -p target
log=target/build.log
exec 9>target/.lock
flock 9
# cargo decides by modification times what to rebuild; decide by content
sum=$(cd ../repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sum" != "$(cat target/.sum 2>/dev/null)" ]; then
	(cd harness && cargo clean -q --release --offline -p kiss_xml) >/dev/null 2>&1
fi
if ! (cd harness && cargo build --release --offline --locked) >"$log" 2>&1; then
	# the pinned lock file must not stand in the way of a changed version number in /repo
	if ! (cd harness && cargo build --release --offline) >"$log" 2>&1; then
		tail -40 "$log" >&2
		echo "build failed" >&2
		exit 2
	fi
	git checkout -q -- harness/Cargo.lock 2>/dev/null
fi
echo "$sum" >target/.sum
flock -u 9
exec 9>&-
[ "$1" = build ] && exit 0
if [ -n "$2" ]; then exec target/release/kv replay "$2"; fi
exec target/release/kv run "$1"
