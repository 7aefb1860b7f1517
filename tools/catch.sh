#!/bin/bash
# usage: catch.sh [SEED...] : runs the quick check of each planted bug's own property against it
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
	p=$(python3 -c "import json,sys;print(json.load(open('seeded/$d/meta.json'))['property'])")
	echo "$d: $(bash tools/try.sh seeded/$d/patch.diff $p | head -3 | tr '\n' ' ')"
done
