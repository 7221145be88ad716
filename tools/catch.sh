#!/bin/bash
# catch.sh ID...: runs each planted bug's check against a scratch copy of /repo with the bug applied
export PYTHONDONTWRITEBYTECODE=1
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/catch_XXXXXX); cp -a /repo $d/repo
  git -C $d/repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s); out=$(cd /verif && VERIF_REPO=$d/repo /opt/venv/bin/python /verif/check.py $p --tier quick 2>&1); rc=$?
  rm -rf $d
  echo "$id: $p exit $rc, $(echo "$out" | grep -c '^VIOLATION') violation lines, $(($(date +%s)-s))s; $(echo "$out" | grep -A1 '^VIOLATION' | sed -n 2p | cut -c1-200)"
  echo "$out" | grep INCONCL | cut -c1-250
done
