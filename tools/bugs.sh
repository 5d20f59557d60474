#!/bin/bash
# usage: tools/bugs.sh [-p PROPERTY] BUG...   (or no BUG: all of seeded/)
# Runs the quick check of each planted bug's property against a scratch copy of /repo with the bug.
cd "$(dirname "$0")/.." || exit 2
prop=
if [ "${1:-}" = -p ]; then prop=$2; shift 2; fi
[ $# -gt 0 ] || set -- $(ls seeded)
S=$(mktemp -d /tmp/bugs.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
for b in "$@"; do
	rm -rf "$S/repo" "$S/verif"; cp -a /repo "$S/repo"; mkdir "$S/verif"
	git -C "$S/repo" apply "$PWD/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
	p=${prop:-$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "seeded/$b/meta.json")}
	cp -a sim run.sh known_findings.json "$S/verif/"; mkdir -p "$S/verif/evidence"
	t0=$(date +%s)
	VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick VERIF_REPO="$S/repo" bash "$S/verif/run.sh" check "$p" >"$S/out" 2>&1
	rc=$?
	if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "$S/out"; then v=CAUGHT; else v=MISSED; fi
	echo "$v $b $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 'class:' "$S/out") $([ $rc -gt 1 ] && tail -c 300 "$S/out")"
done
