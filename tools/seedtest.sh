#!/bin/bash
# usage: seedtest.sh ID...   Confirms planted bugs in a scratch copy of /repo:
# patch applies, builds, stable tests pass, demo fails with it and passes
# without, and which checks report it (PROPS="C01 ..." adds checks to try).
here=$(cd "$(dirname "$0")/.." && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
"$here/build.sh" || exit 2
for id in "$@"; do
  d=$here/seeded/$id
  w=$(mktemp -d /tmp/seed.XXXXXX)
  git clone -q /repo "$w/r"
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  mkdir "$w/d"; cp "$d"/* "$w/d/"; rm -f "$w"/d/*.diff "$w/d/meta.json"
  out="$id [$prop]"
  (cd "$w/r" && bash "$w/d/demo.sh" >"$w/clean.log" 2>&1) && out="$out clean:ok" || out="$out clean:FAIL"
  if ! git -C "$w/r" apply "$d/patch.diff"; then echo "$out APPLY-FAIL"; rm -rf "$w"; continue; fi
  (cd "$w/r" && go build $(go list ./... 2>/dev/null | grep -v generate$) >"$w/build.log" 2>&1) && out="$out build:ok" || out="$out build:FAIL"
  (cd "$w/r" && go test -vet=off -count=1 ./db/query ./ipnet >"$w/test.log" 2>&1) && out="$out tests:ok" || out="$out tests:$(grep -c '^--- FAIL' "$w/test.log")fail"
  (cd "$w/r" && bash "$w/d/demo.sh" >"$w/bug.log" 2>&1) && out="$out demo:MISSED" || out="$out demo:fails"
  for p in $prop $PROPS; do
    mkdir -p "$w/v"; cp "$here/known_findings.txt" "$w/v/" 2>/dev/null
    "$here/.build/uipcheck" check $p "$w/r" "$w/v" >"$w/check.log" 2>&1; rc=$?
    out="$out $p:rc=$rc"
    if [ $rc = 1 ] && [ -z "$QUIET" ]; then out="$out <$(head -1 "$w/check.log" | cut -c1-200)>"; fi
    [ $rc = 2 ] && out="$out <$(tail -1 "$w/check.log")>"
  done
  echo "$out"
  [ -n "$KEEP" ] && { cp "$w"/*.log /tmp/; }
  rm -rf "$w"
done
