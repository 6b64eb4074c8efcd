#!/bin/bash
# try.sh ID...: for each planted bug, in the scratch copy /tmp/plant/repo: apply,
# run the Rust tests and the demonstration with and without it. Prints one line each.
. /opt/vp/env.sh
S=/tmp/plant/repo
for id in "$@"; do
  d=/verif/seeded/$id
  cd $S && git checkout -q -- . || exit 1
  git apply --check $d/patch.diff || { echo "$id: does not apply"; continue; }
  if [ -z "$SKIPCLEAN" ]; then bash $d/demo.sh > /tmp/plant/$id.clean 2>&1; c=$?; else c=-; fi
  git apply $d/patch.diff
  cargo nextest run "${SCOPE[@]}" --no-fail-fast > /tmp/plant/$id.test 2>&1; t=$?
  bash $d/demo.sh > /tmp/plant/$id.bug 2>&1; b=$?
  echo "$id: clean=$c bug=$b tests=$t $(grep -E '^ +Summary|tests run' /tmp/plant/$id.test | tail -1) $(tail -1 /tmp/plant/$id.bug | cut -c1-150)"
  grep -E '^ +(FAIL|SIGABRT)' /tmp/plant/$id.test | sort -u | head -5
  git checkout -q -- .
done
