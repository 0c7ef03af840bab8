#!/bin/bash
# mut.sh [-R] PATCH ID...: run checks on a copy of /repo with PATCH applied (-R: reversed), in place of /repo in a mount namespace of its own.
set -u
opt=; [ "$1" = -R ] && { opt=-R; shift; }
p=$(readlink -f "$1"); shift
w=$(mktemp -d /tmp/mut.XXXXXX); trap 'rm -rf "$w"' EXIT
git clone -q /repo "$w/repo" && git -C "$w/repo" apply $opt "$p" || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
(cd "$w/repo" && go build ./...) || exit 3
for id in "$@"; do
	unshare -Urm bash -c "mount --bind $w/repo /repo && exec /verif/run.sh $id" >"$w/log" 2>&1
	echo "$id rc=$? $(grep -m1 VIOLATION "$w/log") | $(grep -B1 -m1 VIOLATION "$w/log" | head -1 | cut -c1-300)"
done
