#!/bin/bash
# Warms the Go build cache: builds the instrumenter and every check package once.
set -u
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p evidence
B=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup.XXXXXX") || exit 1
trap 'rm -rf "$B"' EXIT
(cd instr && go build -o "$B/instr" .) || exit 1
"$B/instr" -repo /repo -out "$B/ov" -points client -ops stage || exit 1
# dependencies of every check package, with the code they check (overlay files differ per check)
(cd harness && go build ./vsched ./report ./fakedb) || exit 1
(cd harness && go test -run XXX ./... >/dev/null 2>&1)
exit 0
