#!/bin/bash
# Runs checks against planted bugs, each applied to a scratch copy of /repo that stands in
# for /repo in a private mount namespace.
# usage: mutants.sh own|all|<property,...> [bug-id...]      (env: JOBS, BUGS_DIR)
cd "$(dirname "$0")/.."
mode="${1:-own}"; shift
export BUGS_DIR="${BUGS_DIR:-$PWD/seeded}"
bugs=("$@"); [ ${#bugs[@]} -eq 0 ] && bugs=($(ls "$BUGS_DIR"))
# The checks run from a snapshot, so that work can go on meanwhile.
snap=$(mktemp -d /tmp/snap-XXXXXX)
export snap
trap 'rm -rf "$snap"' EXIT
mkdir "$snap/evidence" "$snap/replays"
cp -a check.sh sim known_findings.txt properties.jsonl MANIFEST.json "$snap"
one() {
	b=$1 mode=$2
	prop=$(jq -r .property "$BUGS_DIR/$b/meta.json")
	case $mode in
	all) props=$(jq -r '.checks[].property' MANIFEST.json | sort -u) ;;
	own) props=$prop ;;
	*) props=${mode//,/ } ;;
	esac
	wt=$(mktemp -d /tmp/mut-XXXXXX)
	cp -a /repo/. "$wt"
	if ! git -C "$wt" apply "$BUGS_DIR/$b/patch.diff"; then
		echo "$b: patch does not apply"
	else
		caught=
		for p in $props; do
			out=$(timeout 900 tools/inrepo.sh "$wt" "$snap/check.sh" "$p" 2>&1); rc=$?
			case $rc in
			0) ;;
			1) grep -q "^VIOLATION property=$p " <<<"$out" && caught="$caught $p" || caught="$caught $p(no line)" ;;
			*) caught="$caught $p(exit $rc)" ;;
			esac
		done
		echo "$b [$prop]: caught by:${caught:- NONE}"
	fi
	rm -rf "$wt"
}
export -f one
printf '%s\n' "${bugs[@]}" | xargs -P "${JOBS:-2}" -I{} bash -c 'one {} '"$mode"
