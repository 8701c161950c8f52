#!/bin/bash
# Usage: run.sh ID [quick|thorough]   Builds the harness against /repo's working
# tree and runs the check of one property.
set -u
cd "$(dirname "$0")"
here=$PWD
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
flags=
[ "$id" = C23 ] && flags=-race
(cd harness && go build $flags -o "$tmp/lpgcheck" .) || { echo "build failed" >&2; exit 2; }
"$tmp/lpgcheck" -prop "$id" -tier "$tier" -seed "$seed" -evidence "$here/evidence/$id.json" -replays "$here/replays" -known "$here/KNOWN_FINDINGS.txt" "${@:3}"
exit $?
