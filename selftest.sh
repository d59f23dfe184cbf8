#!/bin/bash
# Runs the quick check of every property (or of those given) on the current tree and fails on anything but a complete, quiet verdict.
cd "$(dirname "$0")" || exit 2
bad=0
for c in ${@:-$(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
	out=$(timeout 900 ./check.sh "$c" "${TIER:-quick}" 2>&1); rc=$?
	last=$(tail -1 <<<"$out")
	if [ $rc != 0 ] || grep -qE "^(NOTE|VIOLATION)" <<<"$out" || ! grep -q "exhaustive=true" <<<"$last"; then bad=1; echo "$c BAD rc=$rc"; grep -E "^(NOTE|VIOLATION)" <<<"$out"; fi
	echo "$last"
done
exit $bad
