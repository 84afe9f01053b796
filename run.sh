#!/bin/bash
# run.sh ID quick|thorough : builds the monitors against /repo's working tree and runs one check.
id=$1; tier=${2:-${VERIF_TIER:-quick}}
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
work=$(mktemp -d /tmp/vmon.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
flags=
if [ "$id" = C05 ]; then
    flags=-race
    mkdir -p "$work/race"
    export VMON_RACE_DIR="$work/race" GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=$work/race/race"
fi
export TMPDIR="$work"
export CGO_ENABLED=1
if ! (cd "$VERIF_DIR/harness" && go build $flags -o "$work/vmon" . ) > "$work/build.log" 2>&1; then
    cat "$work/build.log"
    echo "INCONCLUSIVE property=$id the monitors do not build against /repo"
    exit 3
fi
"$work/vmon" "$id" "$tier"
