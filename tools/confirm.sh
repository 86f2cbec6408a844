#!/bin/bash
# usage: confirm.sh <id>...   in a scratch copy of /repo: the patch applies, builds, passes the stable
# tests; the demonstration passes without and fails with it.
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
W=/tmp/confirm
[ -d $W ] || cp -a /repo $W
for id in "$@"; do
  s=/verif/seeded/$id
  cd $W && git checkout -q -- . && git clean -fdq -e target
  bash $s/demo.sh > /tmp/c.clean 2>&1; c=$?
  git apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  (cargo test --workspace --all-features --no-run --offline && cargo check --workspace --all-features --benches --offline && cargo check --workspace --lib --offline && cargo check --workspace --lib --no-default-features --offline) > /tmp/c.build 2>&1; b=$?
  cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/c.test 2>&1
  f=$(grep -c '^test .* FAILED\|panicked at' /tmp/c.test); p=$(grep -c '^test .* ok$' /tmp/c.test)
  bash $s/demo.sh > /tmp/c.patched 2>&1; d=$?
  git checkout -q -- .
  ok=BAD; [ $c = 0 -a $b = 0 -a $p -ge 80 -a $d != 0 ] && ok=good
  echo "$id: $ok clean=$c build=$b passed=$p failed=$f patched=$d $(grep -a 'panicked' -A1 /tmp/c.patched | tail -1 | cut -c1-120)"
done
