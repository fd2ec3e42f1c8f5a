#!/bin/bash
A=$1; shift
/tmp/w/ext.sh $A || exit 1
cd /tmp/w
BUILD_GIT_HASH=x CARGO_PKG_VERSION=1 ./vr.sh out/lib.rs --crate-type lib --edition 2021 "$@"
