#!/bin/bash
# Builds the harness against /repo's working tree.
# usage: build.sh [PROFILE] [BIN...]
set -eu
cd "$(dirname "$0")"
export VERIF_DIR=$PWD CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS || true
profile=${1:-release}
shift || true
bins=()
for b in "${@:-mc}"; do bins+=(--bin "$b"); done
mkdir -p target
# cargo goes by time stamps; the contents decide here
now=$(cd /repo && find Cargo.toml src libmbus_macros -path '*/target' -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/sources 2>/dev/null)" != "$now" ]; then
	(cd mc && for p in release plain; do
		[ -d ../target/$p ] && cargo clean -q --offline --profile $p -p libmbus -p libmbus_macros
	done) >/dev/null 2>&1 || true
	[ -d target/debug ] && (cd pats && cargo clean -q --offline -p libmbus_macros) >/dev/null 2>&1 || true
	echo "$now" > target/sources
fi
cd mc
build() { cargo build -q --offline --locked --profile "$profile" "${bins[@]}" "$@" 2>../target/build.log; }
build && exit 0
cp ../target/build.log ../target/build.first
# without the parts of the interface that aren't needed
build --no-default-features --features manufacturer && exit 0
build --no-default-features --features helpers && exit 0
build --no-default-features && exit 0
cat ../target/build.first >&2
exit 2
