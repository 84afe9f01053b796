#!/bin/bash
# warms the build cache: everything a check needs is built from committed files and the installed Go toolchain
cd "$(dirname "$0")/harness" || exit 1
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
out=$(mktemp -d /tmp/vmon.XXXXXX)
CGO_ENABLED=1 go build -o "$out/vmon" . ; rc=$?
CGO_ENABLED=1 go build -race -o "$out/vmon-race" . || rc=$?
rm -rf "$out"
exit $rc
