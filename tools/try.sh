#!/bin/bash
# usage: try.sh PATCH CHECK... : applies PATCH to /repo, runs the quick checks, undoes it. Prints the checks that report.
patch=$(realpath "$1"); shift
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
git -C /repo apply "$patch" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
	out=$(timeout 900 bash "$(dirname "$0")/../check.sh" "$c" quick 2>&1); code=$?
	v=$(echo "$out" | grep -c '^VIOLATION')
	echo "$c exit=$code violations=$v $(echo "$out" | grep -B2 -m1 '^VIOLATION' | head -2 | cut -c1-300 | tr '\n' ' ')"
	[ $code -ge 2 ] && echo "$out" | tail -3
done
