cd /tmp/w; BUILD_GIT_HASH=x CARGO_PKG_VERSION=1 ./vr.sh out/lib.rs --crate-type lib --edition 2021 --verify-only-module "$@"
