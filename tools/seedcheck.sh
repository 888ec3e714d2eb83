#!/bin/bash
# Development aid: confirm planted bugs (patch applies, builds, tests pass, demo fails with / passes without) and show what catches them.
# usage: seedcheck.sh [-a] ID...   (-a: run every check, not just the property's)
ALL=0; [ "${1:-}" = -a ] && { ALL=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for id in "$@"; do
	D=$V/seeded/$id
	P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
	W=$(mktemp -d /tmp/seed.XXXXXX); cp "$D"/* "$W"/ -r; find "$W" -maxdepth 1 \( -name '*.diff' -o -name meta.json \) -delete
	r0=0; (cd /repo && bash "$W/demo.sh") >"$W/out0" 2>&1 || r0=$?
	git -C /repo apply "$D/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; continue; }
	b=0; if git -C /repo diff --name-only | grep -q 'geo_lookup\|mathlib'; then bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1 || b=$?; grep -q '"failed": \[\]' /tmp/seedtest.json || b=77; fi
	r1=0; (cd /repo && timeout 280 bash "$W/demo.sh") >"$W/out1" 2>&1 || r1=$?
	if [ $ALL = 1 ]; then ids=$(python3-vt "$V/check.py" list); else ids=$P; fi
	hit=""
	for c in $ids; do timeout 900 python3-vt "$V/check.py" $c >"$W/c" 2>&1; rc=$?; [ $rc = 1 ] && hit="$hit $c"; [ $rc -gt 1 ] && hit="$hit $c(rc$rc)"; done
	git -C /repo checkout -q -- .
	echo "$id [$P]: demo clean=$r0 bug=$r1 tests=$b caught by:${hit:- NONE}"
	[ $r0 != 0 ] && tail -5 "$W/out0"
	find "$W" -delete
done
git -C /repo diff --quiet || echo "WARNING /repo dirty"
git -C /repo diff --name-only
