#!/bin/bash
# Runs in a built indradb tree: compiles the small program beside this script
# against that tree's libraries and runs it. Exit 0: the guarantee holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 99
trap 'rm -rf "$work"' EXIT
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR RUSTFLAGS
# The same build as the tree's own, so that nothing is compiled anew; it says
# where the libraries are.
cargo build --workspace --locked --offline \
    --features "indradb-lib/test-suite,indradb-lib/rocksdb-datastore,indradb-proto/test-suite" \
    --message-format=json >"$work/build.json" 2>"$work/build.log" || { cat "$work/build.log"; exit 98; }
python3 - "$work/build.json" >"$work/externs" <<'P'
import json, sys
want = "indradb indradb_proto indradb_plugin_host uuid serde_json tokio tokio_stream tonic tempfile rocksdb libc prost".split()
seen = {}
for l in open(sys.argv[1]):
    m = json.loads(l)
    if m.get("reason") != "compiler-artifact":
        continue
    n = m["target"]["name"].replace("-", "_")
    # Libraries come before what is built for build scripts.
    for f in m["filenames"]:
        if n in want and f.endswith(".rlib"):
            seen.setdefault(n, []).append((len(m["features"]), f))
for n, fs in sorted(seen.items()):
    print("--extern"); print("%s=%s" % (n, max(fs)[1]))
P
mapfile -t externs <"$work/externs"
rustc --edition 2021 -C debuginfo=0 -o "$work/vpdemo" "$here/main.rs" \
    -L "dependency=$repo/target/debug/deps" "${externs[@]}" >"$work/rustc.log" 2>&1 || { cat "$work/rustc.log"; exit 97; }
TMPDIR="$work" WORK="$work" REPO="$repo" timeout 120 "$work/vpdemo"
