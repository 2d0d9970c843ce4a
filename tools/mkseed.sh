#!/bin/bash
# mkseed.sh ID: makes seeded/ID/patch.diff from the modified copy /tmp/seed and checks it there:
# builds, stable tests pass, demo passes on the unchanged tree and fails with the patch.
. /opt/vp/env.sh
ID=$1; S=/verif/seeded/$ID
cd /tmp/seed || exit 1
git diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no change"; exit 1; }
export RUSTFLAGS="-W dependency_on_unit_never_type_fallback"
echo "demo with patch:"; bash $S/demo.sh > /tmp/seed.out 2>&1 && { echo "DEMO PASSES WITH PATCH"; exit 1; }
grep -v "^warning" /tmp/seed.out | grep -E "panicked|assert|error" -A2 | head -5
cargo test --offline --locked --lib --no-fail-fast -- --skip data::committee::sortition:: --skip crypto::multisig:: 2>&1 | grep -E "^test result|FAILED|failed|^error" | head
git stash -q; echo "demo without:"; bash $S/demo.sh > /tmp/seed.out 2>&1 && echo ok || { echo "DEMO FAILS ON UNCHANGED"; tail -5 /tmp/seed.out; }
git stash drop -q
