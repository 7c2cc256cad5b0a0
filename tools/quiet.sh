#!/bin/bash
# Runs checks against behaviour-preserving edits, each applied to a scratch copy of /repo.
# usage: quiet.sh all|<property,...> [edit...]      (env: JOBS)
cd "$(dirname "$0")/.."
mode="${1:-all}"; shift
edits=("$@"); [ ${#edits[@]} -eq 0 ] && edits=($(ls tools/quiet | sed 's/\.diff$//'))
# The checks run from a snapshot, so that work can go on meanwhile.
snap=$(mktemp -d /tmp/snap-XXXXXX)
export snap
trap 'rm -rf "$snap"' EXIT
mkdir "$snap/evidence" "$snap/replays"
cp -a check.sh sim known_findings.txt properties.jsonl MANIFEST.json "$snap"
one() {
	case $2 in
	all) props=$(jq -r '.checks[].property' MANIFEST.json) ;;
	*) props=${2//,/ } ;;
	esac
	wt=$(mktemp -d /tmp/quiet-XXXXXX)
	cp -a /repo/. "$wt"
	bad=
	if git -C "$wt" apply "$PWD/tools/quiet/$1.diff"; then
		for p in $props; do
			out=$(timeout 900 tools/inrepo.sh "$wt" "$snap/check.sh" "$p" 2>&1); rc=$?
			[ $rc -eq 0 ] || { bad="$bad $p(exit $rc)"; echo "$1 $p: $(tail -n 3 <<<"$out")"; }
			grep -q '^note:' <<<"$out" && { bad="$bad $p(reduced)"; grep -A5 '^note:' <<<"$out" | head -12; }
		done
	else
		bad=" does not apply"
	fi
	echo "$1:${bad:- quiet}"
	rm -rf "$wt"
}
export -f one
printf '%s\n' "${edits[@]}" | xargs -P "${JOBS:-2}" -I{} bash -c 'one {} '"$mode"
