#!/bin/bash
# seedtest.sh <seed id> [checks...]: validates a planted bug in a scratch copy of /repo and runs checks against it.
id=$1; shift
v=$(cd "$(dirname "$0")/.." && pwd)
s=$(mktemp -d /tmp/seed.XXXX); trap 'rm -rf "$s"' EXIT
cp -a /repo "$s/repo"; cp -r "$v/seeded/$id" "$s/d"; rm -f "$s/d/patch.diff"
cd "$s/repo" || exit 2
. /opt/vp/env.sh
bash "$s/d/demo.sh" >"$s/o1" 2>&1; a=$?
git apply "$v/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
go build ./... && go build -tags heroku ./... && go build -tags fast ./... || { echo "$id: build fails"; exit 2; }
bash "$s/d/demo.sh" >"$s/o2" 2>&1; b=$?
t=ok
if [ -z "$NOTEST" ]; then
  mkdir "$s/home"
  HOME=$s/home go test -vet=off -count=1 -p 1 ./... >"$s/t" 2>&1 || t=FAIL
  HOME=$s/home go test -vet=off -count=1 -p 1 -tags heroku -run '^TestForwarded' ./tracker/http >>"$s/t" 2>&1 || t=FAIL
  [ $t = FAIL ] && grep -aE '^(---|FAIL|panic)' "$s/t" | head -5
fi
[ $a = 0 ] || tail -5 "$s/o1"
echo "$id: demo clean=$a patched=$b tests=$t"
[ -n "$SHOW" ] && tail -8 "$s/o2"
mkdir -p "$s/v/evidence"; cp "$v/known_findings.txt" "$s/v/"
for p in "$@"; do
  REPO_DIR=$s/repo VERIF_DIR=$s/v "$v/bin/trakxlint" -prop "$p" >"$s/c" 2>&1; echo "  $p rc=$? $(grep -a VIOLATION "$s/c" | head -1 | cut -c1-60)"
  [ -n "$SHOW" ] && head -c 1500 "$s/c"
done
