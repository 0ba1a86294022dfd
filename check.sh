#!/bin/bash
# check.sh PROPERTY [quick|thorough]: analyses /repo's current source and
# reports the violations of one property.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
depth=140
[ "$tier" = thorough ] && depth=239
if [ ! -x bin/amtcheck ] || [ -n "$(find amtcheck -maxdepth 1 -newer bin/amtcheck \( -name '*.go' -o -name go.mod \) -print -quit)" ]; then
  bash ./build.sh || { echo "the analyzer does not build"; exit 2; }
fi
mkdir -p evidence
rm -f "$PWD/evidence/$prop.violation.json"
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local \
exec ./bin/amtcheck -repo "${AMT_REPO:-/repo}" -prop "$prop" -depth "$depth" -tier "$tier" -seed "${VERIF_SEED:-1}" \
  -known known-findings.txt -evidence "evidence/$prop.json" -replay "evidence/$prop.violation.json"
