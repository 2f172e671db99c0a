#!/bin/bash
# seedtest.sh ID...: run demo on the clean tree, then per seed: demo and check with the change applied.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/seed_demo0.log 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd /repo && bash $d/demo.sh >/tmp/seed_demo1.log 2>&1); b=$?
  if [ -z "$NOCHECK" ]; then
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python -m qv.main $prop --tier quick >/tmp/seed_check_$id.log 2>&1); c=$?
  fi
  git -C /repo checkout -- .
  echo "$id [$prop]: demo clean=$a changed=$b check=$c  $(grep -c '^VIOLATION' /tmp/seed_check_$id.log 2>/dev/null) violations"
done
