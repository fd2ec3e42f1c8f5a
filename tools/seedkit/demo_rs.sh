#!/bin/bash
# run in the repository's root, after the build: compiles demo.rs against the library as built there
export RUSTUP_TOOLCHAIN=1.98.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
D=$(realpath "$(dirname "$0")")
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
EX=$(cargo build --workspace --offline --message-format=json 2>/dev/null | python3 -c "
import json,sys
for l in sys.stdin:
    try: m=json.loads(l)
    except ValueError: continue
    if m.get('reason')=='compiler-artifact' and m['target']['name'] in ('ratelmq','tokio','bytes','chrono','futures') and not m.get('executable'):
        for f in m['filenames']:
            if f.endswith('.rlib'): print('--extern', m['target']['name']+'='+f)")
rustc --edition 2021 "$D/demo.rs" -o "$T/demo" -L dependency=target/debug/deps $EX 2>"$T/err" || { cat "$T/err"; exit 3; }
timeout 200 "$T/demo"
