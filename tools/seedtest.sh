#!/bin/bash
# seedtest.sh ID...: in a scratch copy of /repo, check that each seeded change applies, builds, passes the
# stable tests, and that its demo succeeds without and fails with it.
root="$(cd "$(dirname "$0")/.." && pwd)"
w=/tmp/seedwork; mkdir -p "$w"
rm -rf /tmp/seedwork/repo; cp -a /repo /tmp/seedwork/repo
. /opt/vp/env.sh
for id in "$@"; do
  d="$root/seeded/$id"; cp -r "$d" /tmp/seedwork/demo-$id
  cd /tmp/seedwork/repo; git checkout -q -- .
  bash /tmp/seedwork/demo-$id/demo.sh > /tmp/seedwork/$id.clean 2>&1; a=$?
  git apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
  bash /tmp/seedwork/demo-$id/demo.sh > /tmp/seedwork/$id.bad 2>&1; b=$?
  cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seedwork/$id.log 2>&1
  n=$(grep -c '^test .* ok$' /tmp/seedwork/$id.log); f=$(grep -c '^test .* FAILED$' /tmp/seedwork/$id.log)
  echo "$id: demo clean=$a bad=$b ($(tail -1 /tmp/seedwork/$id.bad | cut -c1-100)); tests ok $n failed $f"
  git checkout -q -- .; rm -rf /tmp/seedwork/demo-$id
done
rm -rf /tmp/seedwork/repo
