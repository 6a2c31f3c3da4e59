#!/bin/bash
# bug.sh ID [check ...]: judge the planted bug /verif/seeded/ID in a scratch copy.
# Builds it, runs the stable tests, its demonstration (unchanged and changed) and the named checks
# (default: the one of its property).
id=$1; shift
d=/verif/seeded/$id
w=/tmp/bugs/$id
mkdir -p /tmp/bugs
if [ ! -d "$w" ]; then
  git -C /repo worktree prune
  mkdir -p "$w"; (cd /repo && git archive HEAD) | tar -x -C "$w"
  cp -a /repo/target "$w/target" 2>/dev/null
fi
cd "$w" || exit 2
(cd /repo && git archive HEAD) | tar -x -C "$w"
git init -q . 2>/dev/null
git apply --check "$d/patch.diff" || { echo "BUG $id: patch does not apply"; exit 2; }
if [ "$NODEMO" = "" ]; then
  (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/bugs/$id.clean 2>&1); c=$?
fi
git apply "$d/patch.diff"
find src -name '*.rs' -exec touch {} +
CARGO_TARGET_DIR="$w/target" cargo build --offline >/tmp/bugs/$id.build 2>&1 || { echo "BUG $id: does not build"; tail -20 /tmp/bugs/$id.build; exit 2; }
t=$(CARGO_TARGET_DIR="$w/target" cargo test --offline 2>&1 | grep "test result" | tail -1)
if [ "$NODEMO" = "" ]; then
  (timeout 300 bash "$d/demo.sh" >/tmp/bugs/$id.bug 2>&1); m=$?
  echo "BUG $id: demo clean=$c bug=$m ($(tail -1 /tmp/bugs/$id.bug | cut -c1-160)) tests: $t"
fi
[ "$1" = "-" ] && exit 0
p=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cp target/debug/bitcoin-indexer /tmp/bugs/$id.bin
cd /verif
for c in $p; do
  s=$(date +%s)
  VERIF_BINARY=/tmp/bugs/$id.bin VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 harness/check.py $c >/tmp/bugs/$id.$c 2>&1; r=$?
  echo "BUG $id: check $c rc=$r $(( $(date +%s) - s )) s: $(grep -a VIOLATION /tmp/bugs/$id.$c | head -1 | cut -c1-200)"
done
[ "$KEEP" = "" ] && rm -rf "$w"
exit 0
