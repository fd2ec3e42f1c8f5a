export RUSTUP_TOOLCHAIN=1.98.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/.build/vext; cd /verif/vext; cargo build --offline 2>&1 | grep -E "^error" -A6
