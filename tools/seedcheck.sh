#!/bin/bash
# seedcheck.sh ID...: validates planted bugs in a scratch copy of /repo and says which checks catch them.
# (A development tool; no check uses it.)
S=/tmp/sd/repo
[ -d $S ] || { mkdir -p /tmp/sd; cp -a /repo /tmp/sd/; }
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
cd $S || exit 1
for id in "$@"; do
  d=/verif/seeded/$id
  git checkout -q -- . ; git clean -fdq -e target; (cd /repo && git diff HEAD --quiet) ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  demo=/tmp/sd/demo; mkdir -p $demo; rm -f $demo/*; cp $d/* $demo/; rm -f $demo/*.diff $demo/meta.json
  if [ -z "$SKIP" ]; then
  cargo build -q --offline 2>/tmp/sd/build0.log || echo "$id: BASE BUILD FAILS"
  (bash $demo/demo.sh >/tmp/sd/demo0.log 2>&1) || echo "$id: DEMO FAILS ON BASE"
  fi
  git apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  if [ -z "$SKIP" ]; then
  cargo build -q --offline 2>/tmp/sd/build1.log || { echo "$id: PATCH BUILD FAILS"; continue; }
  cargo test -q --offline >/tmp/sd/test1.log 2>&1 || echo "$id: TESTS FAIL"
  (bash $demo/demo.sh >/tmp/sd/demo1.log 2>&1) && echo "$id: DEMO PASSES WITH PATCH"
  fi
  props=${PROPS:-$prop}
  for p in $props; do
    out=$(WB_REPO=$S /verif/check $p quick 2>&1); rc=$?
    echo "$id: check $p rc=$rc $(echo "$out" | grep -m1 VIOLATION | head -c 200)"
  done
done
git checkout -q -- .
