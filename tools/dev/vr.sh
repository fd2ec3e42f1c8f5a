#!/bin/bash
export RUSTUP_TOOLCHAIN=1.98.1
D=/verif/.build/target/debug/deps
EX=""
for c in tokio bytes uuid chrono config argon2 serde log bitflags futures rand_core; do f=$(ls -t $D/lib$c-*.rlib 2>/dev/null|head -1); [ -n "$f" ] && EX="$EX --extern $c=$f"; done
for c in async_trait; do f=$(ls -t $D/lib$c-*.so|head -1); EX="$EX --extern $c=$f"; done
F=$1; shift
exec verus $F -L dependency=$D $EX "$@"
