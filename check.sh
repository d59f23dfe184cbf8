#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the engine if needed and decides one property on /repo's current tree.
export HOME=/root PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$DIR"
[ -n "$2" ] && export VERIF_TIER="$2"
if [ "$1" = setup ]; then
	cd "$DIR/engine" && go build -o "$DIR/bin/engine" . && mkdir -p "$DIR/evidence" && exit 0
	exit 2
fi
# always rebuilt (a cached build takes a fraction of a second)
(cd "$DIR/engine" && go build -o "$DIR/bin/engine" .) || exit 2
cd "$DIR" || exit 2
exec "$DIR/bin/engine" check "$1"
