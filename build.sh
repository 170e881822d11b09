#!/bin/bash
# Builds the simulator from the working tree of /repo into /verif/.build (ignored by git).
# usage: build.sh        prints a note about what was left out, if anything
here=$(cd "$(dirname "$0")" && pwd)
repo=${FERRYD_REPO:-/repo}
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
export GOPATH=/root/go GOCACHE=${VERIF_GOCACHE:-$here/.build/gocache}
b=${VERIF_BUILD:-$here/.build}
mkdir -p "$b"
exec 9>"$b/lock"
flock 9
cd "$here/sim/tools/rewrite" || exit 2
go build -o "$b/rewrite" . >&2 || { echo "the rewriter does not build" >&2; exit 2; }
cd "$here/sim" || exit 2
"$b/rewrite" -repo "$repo" -sim "$here/sim" -out "$b/tree" >&2 || { echo "the tree cannot be prepared for simulation" >&2; exit 2; }
# Some scenarios call internal interfaces; without them the rest still runs.
all="libdb store delta ctl"
build() { go build -tags "$1" -modfile="$b/tree/go.mod" -o "$b/ferrysim.new" ./cmd/ferrysim >"$b/build.log" 2>&1; }
if build "$all"; then
	mv -f "$b/ferrysim.new" "$b/ferrysim"
	exit 0
fi
tags=
for t in $all; do
	build "$t" && tags="$tags $t"
done
if build "$tags"; then
	mv -f "$b/ferrysim.new" "$b/ferrysim"
	echo "built with only: the whole-daemon scenarios$tags"
	exit 0
fi
cat "$b/build.log" >&2
echo "the simulator does not build" >&2
exit 2
