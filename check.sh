#!/bin/bash
# check.sh <property>: decide one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
id=$1
[ -x bin/trakxlint ] || ./build.sh || exit 2
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off VERIF_DIR="$PWD"
timeout 850 bin/trakxlint -prop "$id" -tier "${VERIF_TIER:-quick}"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # an analysis that does not end has not shown the property
  mkdir -p evidence
  echo "the analysis of $id ended with status $rc without a verdict" > evidence/$id.violation.txt
  printf '{"property":"%s","tier":"%s","seed":1,"level":"other","coverage":{"explanation":"the analysis did not complete (status %s)"},"wall_s":0,"violations":1}\n' "$id" "${VERIF_TIER:-quick}" "$rc" > evidence/$id.json
  echo "VIOLATION property=$id replay=$PWD/evidence/$id.violation.txt"
  exit 1
fi
exit $rc
