#!/bin/bash
# run.sh ID TIER: decide one property on /repo's current working tree.
# Exit 0: holds. Exit 1 with a VIOLATION line: broken or not decidable any more.
id=$1; tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export BOOCHECK_VERIF=$here
bash "$here/setup.sh" >&2 || { echo "the checker could not be built" >&2; exit 2; }
out=$(mktemp)
( ulimit -v 16000000; exec timeout 800 "$here/bin/boocheck" check "$id" "$tier" ) >"$out" 2>"$out.err"
rc=$?
if [ $rc -eq 0 ] || { [ $rc -eq 1 ] && grep -q "^VIOLATION property=$id " "$out"; }; then
	cut -c1-2000 "$out"
	rm -f "$out" "$out.err"
	exit $rc
fi
mkdir -p "$here/evidence/reports"
rep=$here/evidence/reports/$id.txt
{ echo "the analysis of this tree could not be completed (status $rc)"; cut -c1-400 "$out" | tail -20; cut -c1-400 "$out.err" | head -40; } > "$rep"
cat > "$here/evidence/$id.json" <<J
{"property": "$id", "tier": "$tier", "seed": ${VERIF_SEED:-1}, "level": "other", "coverage": {"explanation": "the analysis could not be completed on this tree; reported as a violation"}, "wall_s": 0, "violations": 1}
J
head -5 "$rep"
rm -f "$out" "$out.err"
echo "VIOLATION property=$id replay=$rep"
exit 1
