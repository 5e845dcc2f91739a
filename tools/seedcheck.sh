#!/bin/bash
# seedcheck.sh [--runs N] ID...: which seeded changes does the check of their property catch? Works on copies of /repo and the harness.
root="$(cd "$(dirname "$0")/.." && pwd)"
runs=(); [ "$1" = --runs ] && { runs=(--runs "$2"); shift 2; }
mkdir -p /tmp/sc/repo /tmp/sc/harness
for id in "$@"; do
  d="$root/seeded/$id"; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rsync -a --delete --exclude target /repo/ /tmp/sc/repo/
  rsync -a --delete --exclude target "$root/harness/" /tmp/sc/harness/
  sed -i 's#path = "/repo"#path = "/tmp/sc/repo"#' /tmp/sc/harness/Cargo.toml
  git -C /tmp/sc/repo checkout -q -- . ; git -C /tmp/sc/repo apply "$d/patch.diff" || continue
  (cd /tmp/sc/harness && env -u RUSTFLAGS cargo build --release --offline --target-dir /tmp/sc/target 2>&1 | grep -E '^error' -A6)
  r=$(/tmp/sc/target/release/hypsim check $p --tier quick --seed 1 "${runs[@]}" --out /tmp/o 2>&1)
  echo "$id $p: $(echo "$r" | grep -E "^$p [a-z]" | head -1 | cut -c1-150) | $(echo "$r" | tail -1)"
done
