#!/bin/bash
# usage: check.sh <property> [quick|thorough] [extra gosym flags]
# Builds the encoder from /verif/gosym and decides the property on /repo's
# current working tree.
cd "$(dirname "$0")" || exit 3
here=$PWD
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
(cd gosym && go build -o "$tmp/gosym" .) || exit 3
TMPDIR=$tmp "$tmp/gosym" -prop "$prop" -tier "$tier" -harness "$here/harness" -config "$here/checks.json" \
  -evidence "$here/evidence/$prop.json" -replays "$here/evidence/replay" -known "$here/known_findings.txt" "$@"
