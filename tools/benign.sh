#!/bin/bash
# usage: tools/benign.sh [NAME...]   (PROPS="C01 C13" VERIF_SCALE=0.1)
# Applies each behaviour-preserving rewrite in benign/ to a scratch copy of
# /repo and runs the checks against it; every one of them must stay quiet.
cd "$(dirname "$0")/.." || exit 2
v=$PWD
[ $# -gt 0 ] || set -- $(cd benign && ls *.diff | sed 's/\.diff$//')
: "${PROPS:=C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22}" "${VERIF_SCALE:=0.1}"
export VERIF_SCALE
bad=0
for b; do
	w=$(mktemp -d)
	git -C /repo archive HEAD | tar x -C "$w"
	(cd "$w" && git init -q . && git apply "$v/benign/$b.diff") || { echo "$b: does not apply"; bad=1; }
	for p in $PROPS; do
		s=$(date +%s)
		out=$(VERIF_REPO=$w ./check.sh "$p" 2>&1); c=$?
		[ $c = 0 ] || bad=1
		echo "$b $p exit=$c $(($(date +%s) - s))s $(echo "$out" | grep -E '^violation|^dst:|set aside' | head -3 | cut -c1-300)"
	done
	rm -rf "$w"
done
exit $bad
