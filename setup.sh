#!/bin/bash
# Builds the extractor and qlc into /verif/.build; every check does the same again where it is missing.
set -e
cd "$(dirname "$0")"
(cd tools/vxtract && CARGO_TARGET_DIR="$PWD/../../.build/vxtract" cargo build --offline --locked)
CARGO_TARGET_DIR="$PWD/.build/qlc" cargo build --offline --locked --manifest-path /repo/Cargo.toml
