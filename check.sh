#!/bin/bash
# Builds the simulator against the current /repo tree and decides one property.
# usage: check.sh <property> [replay-file]
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOPROXY=off
prop="${1:?property}"
tier="${VERIF_TIER:-quick}"
seed="${VERIF_SEED:-1}"
work="$(mktemp -d /tmp/nimsim-XXXXXXXX)"
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work"

# A second binary with the race detector, which watches the code under test and not
# the simulator.
norace=()
for p in simrt simsync simos h scen; do norace+=("-gcflags=nimsim/$p=-race=false -l"); done
build_race() {
	(cd sim && go test -c -race "${norace[@]}" -vet=off -overlay "$work/gen/overlay.json" -o "$work/race.bin" .) >"$work/race.log" 2>&1 ||
		{ echo "note: build with the race detector failed:"; tail -n 3 "$work/race.log"; }
}

build() { # mode
	rm -rf "$work/gen"
	mkdir -p "$work/gen"
	"$work/instr" "$VERIF_DIR/sim" "$work/gen" "$1" &&
		(cd sim && go test -c -vet=off -overlay "$work/gen/overlay.json" -o "$work/sim.bin" .)
}

(cd sim && go build -o "$work/instr" ./instr) || exit 2
ok=
for mode in full nofs none; do
	if build "$mode" >"$work/build.log" 2>&1; then
		ok=$mode
		break
	fi
	echo "note: build with instrumentation level '$mode' failed:"
	tail -n 5 "$work/build.log"
done
[ -n "$ok" ] || exit 2
export NIMSIM_MODE=$ok NIMSIM_INSTR="$work/gen/instr.json"
case $prop:${3:-} in
C15: | C16:) race=1 ;;
*:?*) grep -q '"race": true' "$3" && race=1 ;;
esac
if [ "${race:-}" ] && [ "$ok" = full ]; then
	build_race
	export NIMSIM_RACEBIN="$work/race.bin"
fi
run() { "$work/sim.bin" -test.run '^TestSim$' -test.timeout 0 -- "$@"; }
if [ $# -gt 1 ]; then
	shift
	run "$@"
else
	run check "$prop" "$tier" "$seed"
fi
