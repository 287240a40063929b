#!/bin/bash
# extracts MIR facts of the working tree of $WSA_REPO (default /repo) into $1 (a directory); builds the driver first if needed
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")/.." && pwd)
CACHE=${WSA_CACHE:-$HERE/.cache}
REPO=${WSA_REPO:-/repo}
mkdir -p "$OUT" "$CACHE"
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
SUM=$(sha256sum "$HERE/mirdump/main.rs" | cut -c1-16)
BIN=$CACHE/mirdump-$SUM
if [ ! -x "$BIN" ]; then
  rustc +nightly --edition 2021 -O "$HERE/mirdump/main.rs" -o "$BIN.tmp.$$"
  mv "$BIN.tmp.$$" "$BIN"
fi
cd "$REPO"
export MIRDUMP_OUT=$OUT CARGO_TARGET_DIR=$CACHE/target RUSTC_WORKSPACE_WRAPPER=$BIN CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
# force the two workspace crates to be checked again (cargo's freshness test would skip the wrapper)
rm -rf "$CACHE"/target/debug/.fingerprint/websocket-* "$CACHE"/target/debug/build/websocket "$CACHE"/target/debug/build/websocket-base
rm -f "$OUT"/websocket.json "$OUT"/websocket_base.json
cargo +nightly check --workspace --lib --offline --quiet --config 'term.color="never"' >&2
test -s "$OUT/websocket.json" && test -s "$OUT/websocket_base.json"
# the probe crate: uses of the generic interface, compiled against the metadata just produced
B=$CACHE/target/debug/build
L=()
for d in "$B"/*/*/out; do L+=(-L "dependency=$d"); done
X=()
for c in websocket websocket-base bytes hyper tokio-codec tokio-io futures tokio-tcp tokio-tls native-tls url unicase; do
  n=${c//-/_}
  f=$(ls -t "$B"/$c/*/out/lib$n-*.rmeta | head -1)
  X+=(--extern "$n=$f")
done
# witness programs: what must and what must not compile; rustc's verdict on each is the result
for n in must mustnot mustnot_have; do
  rustc +nightly --edition 2021 --crate-name witness --crate-type lib --emit=metadata --error-format=json --cap-lints=allow -o "$CACHE/target/libwitness.rmeta" "${X[@]}" "${L[@]}" "$HERE/probe/$n.rs" 2>"$OUT/$n.json" || test $? = 1
done
rm -f "$CACHE/target/libwitness.rmeta"
rm -f "$OUT/probe.json"
# a tree on which the probe does not build has no probe facts; the checks that need none still run
"$BIN" --crate-name probe --edition 2021 --crate-type lib --emit=metadata -o "$CACHE/target/libprobe.rmeta" "${X[@]}" "${L[@]}" "$HERE/probe/lib.rs" >&2 || echo 'the probe crate does not build on this tree' >&2
