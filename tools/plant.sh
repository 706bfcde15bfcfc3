#!/bin/bash
# plant.sh make ID PROP "needs" "breaks"   : store the current diff of /repo as seeded/ID/patch.diff and revert it
# plant.sh test ID [notests]               : confirm demo (clean: 0, patched: nonzero), tests pass, and run the property's check
set -u
cd /verif/seeded
case $1 in
make)
  mkdir -p "$2"; git -C /repo diff > "$2/patch.diff"; git -C /repo checkout -q -- .
  python3 - "$2" "$3" "$4" "$5" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
P
  ;;
test)
  id=$2; prop=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  d=$(mktemp -d); cp "$id"/* "$d"/; rm -f "$d"/*.diff "$d"/meta.json
  (cd /repo && timeout 300 bash "$d/demo.sh" >"$d/clean.log" 2>&1); r1=$?
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: patch fails"; exit 1; }
  bash /opt/vp/build.sh || echo "BUILD FAILS"
  (cd /repo && timeout 300 bash "$d/demo.sh" >"$d/bug.log" 2>&1); r2=$?
  t="skipped"; [ "${3:-}" = notests ] || t=$(bash /tmp/rt.sh)
  (cd /verif && timeout 900 ./check.py $prop >"$d/check.log" 2>&1); r3=$?
  git -C /repo checkout -q -- .
  echo "$id [$prop] demo clean=$r1 patched=$r2 tests: $t check=$r3 $(grep -c VIOLATION $d/check.log)"
  [ $r1 = 0 ] || tail -5 "$d/clean.log"
  [ $r2 != 0 ] || echo "   DEMO DOES NOT FAIL"
  [ $r3 = 1 ] || tail -5 "$d/check.log"
  rm -rf "$d";;
esac
