#!/bin/bash
# trybug.sh ID [demo]: applies a planted bug to a scratch copy, runs the checks named (or the property's own); with "demo" also the demonstration
ID=$1
D=/verif/seeded/$ID
R=/tmp/try/$ID
mkdir -p /tmp/try
rm -rf "$R"; mkdir -p "$R"
(cd /repo && git archive HEAD) | tar -x -C "$R"
cp /repo/Cargo.lock "$R/" 2>/dev/null
cd "$R" && git init -q . && git apply $D/patch.diff || { echo "$ID patch failed"; exit 9; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ "$2" = demo ]; then (cd "$R" && bash $D/demo.sh >/tmp/try/$ID.demo 2>&1; echo "$ID demo(patched) rc=$?"); (cd /repo && bash $D/demo.sh >/tmp/try/$ID.demo0 2>&1; echo "$ID demo(clean) rc=$?"); fi
if [ "$2" = test ]; then (cd "$R" && RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=/tmp/try/target cargo test --workspace --features nightly --offline 2>&1 | grep -E '^test result|FAILED|failed|error' | head); fi
cd /verif; mkdir -p /tmp/try/cache; cp -u /verif/.cache/mirdump-* /tmp/try/cache/
WSA_EV=/tmp/try/ev WSA_REPO="$R" WSA_CACHE=/tmp/try/cache python3 -m wsa.check $P > /tmp/try/$ID.out 2>&1; echo "$ID $P check rc=$?"; grep -v '^  undec' /tmp/try/$ID.out | cut -c1-250 | head -${3:-3}
rm -rf "$R"
