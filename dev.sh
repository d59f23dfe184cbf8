#!/bin/bash
# dev driver: dev.sh pkg func...
. /opt/vp/env.sh >/dev/null; cd /verif/engine && go build -o /tmp/eng . || exit 1
cd /verif; p=$1; shift
for f in "$@"; do timeout ${T:-600} /tmp/eng dev $p $f 2>&1 | cut -c1-${W:-600} | tail -${N:-25}; done
