#!/bin/bash
# run.sh ID: build the check of property ID from /repo's working tree and run it.
# Exit 0: held. Exit 1 + "VIOLATION property=ID replay=...": broken. Exit 2: could not decide.
set -u
ID=${1:?usage: run.sh ID}
ROOT=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
line=$(grep -E "^$ID " "$ROOT/harness/areas.txt") || { echo "no such check: $ID"; exit 2; }
read -r _ pkg points ops <<<"$line"
tight=
[ "${points%!}" = "$points" ] || { tight=-tight; points=${points%!}; }
[ "$points" = - ] && points=
[ "$ops" = - ] && ops=
# packages that were added since
for d in $(cd /repo && find . -name '*.go' ! -name '*_test.go' ! -path '*/.*' ! -path '*/testdata/*' -printf '%h\n' | sed 's,^\./,,' | sort -u); do
	case " . aws boot client compute config data dbconn limit proto stage stats test test/mock trx workload bin/finch " in
	*" $d "*) ;;
	*) ops=${ops:+$ops,}$d ;;
	esac
done
B=$(mktemp -d "${TMPDIR:-/tmp}/verif-build.XXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
rm -f "$ROOT/evidence/$ID.json"
mkdir -p "$ROOT/evidence"
build() { # points ops
	(cd "$ROOT/instr" && go build -o "$B/instr" .) &&
	"$B/instr" $tight -repo /repo -out "$B/ov" -points "$1" -ops "$2" &&
	(cd "$ROOT/harness" && go test -overlay "$B/ov/overlay.json" -c -o "$B/check.test" "./$pkg")
}
if ! build "$points" "$ops" >"$B/log" 2>&1; then
	cat "$B/log"
	# instrumentation with scheduling points failed: try operations only
	rm -rf "$B/ov"
	all=$(echo "$points,$ops" | sed 's/^,//; s/,$//')
	if [ -z "$points" ] || ! build "" "$all" >"$B/log" 2>&1; then
		cat "$B/log"
		echo "check $ID does not build against /repo"
		exit 2
	fi
	echo "note: scheduling points could not be inserted; exploring blocking operations only"
fi
cd "$B" || exit 2
VERIF_ROOT=$ROOT "$B/check.test" -test.run "^Test$ID\$" -test.timeout 0 -test.count 1
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=2
if [ ! -f "$ROOT/evidence/$ID.json" ]; then rc=2; fi
exit $rc
