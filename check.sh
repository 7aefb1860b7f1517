#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [DOMAIN]
# exit 0: held on everything explored, 1: VIOLATION, 2: no answer
set -u
cd "$(dirname "$0")"
export VERIF_DIR=$PWD CARGO_NET_OFFLINE=true
id=$1
tier=$2
case $id in
C01)
	# the property asks for both kinds of build
	bash build.sh plain mc || exit 2
	out=$(MC_NO_EVIDENCE=1 target/plain/mc check "$@")
	code=$?
	echo "$out" | sed 's/^C01 /C01 (no checks) /'
	[ $code = 0 ] || exit $code
	n=$(echo "$out" | sed -n 's/^C01 .*: \([0-9]*\) cases, .*/\1/p' | paste -sd+ | bc)
	export MC_NOTE="The same spaces were also run in a build without overflow checks and debug assertions: $n cases, no violation."
	bash build.sh release mc || exit 2
	;;
C26) bash build.sh release mc test_parse || exit 2 ;;
*) bash build.sh release mc || exit 2 ;;
esac
target/release/mc check "$@"
