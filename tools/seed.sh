#!/bin/bash
# seed.sh ID...: confirms planted bugs in a scratch copy of /repo (tests pass, demo
# fails with and passes without the change), then runs the property's quick check with it
for id in "$@"; do
  d=/verif/seeded/$id
  s=/tmp/seed_$id; mkdir -p "$s"; cp -a /repo "$s/"
  dd=/tmp/seed_$id/demo; mkdir "$dd"; cp "$d"/* "$dd"; rm -f "$dd"/*.diff "$dd"/meta.json
  cd "$s/repo"
  bash "$dd/demo.sh" > "$s/clean.log" 2>&1; c=$?
  git apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  bash "$dd/demo.sh" > "$s/bug.log" 2>&1; b=$?
  t=$(PYTHONPATH=$PWD /opt/venv/bin/python -m pytest -q -x tests 2>&1 | grep -E "passed|failed" | tail -1)
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  if [ -z "$NOCHECK" ]; then
    out=$(cd /verif; VSYM_REPO=$s/repo /opt/venv/bin/python check.py $p --tier quick 2>&1); k=$?
    echo "$id $p: demo clean=$c bug=$b | $t | check exit $k $(echo "$out" | grep -c '^VIOLATION')"
    echo "$out" | grep -A2 'instance' | head -3 | cut -c1-220
  else echo "$id $p: demo clean=$c bug=$b | $t"; fi
  [ $b = 0 -o $c != 0 ] && tail -n3 "$s/clean.log" "$s/bug.log"
  cd /; rm -rf "/tmp/seed_$id"
done
