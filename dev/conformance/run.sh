#!/bin/bash
# Development aid, not a check: conformance of the interpreter and its models with the compiler.
# Compiles the functions in tests.txt (none of them from /repo), runs them, interprets their THIR with the
# same engine that the checks use, and compares.  Uses and removes a scratch directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export CONF_DIR=${CONF_DIR:-$(mktemp -d)}
mkdir -p "$CONF_DIR/src" "$CONF_DIR/cache"
cp "$here/Cargo.toml" "$here/tests.txt" "$CONF_DIR/"
cp /opt/vp/Cargo.lock.saved "$CONF_DIR/Cargo.lock"
cd "$CONF_DIR"
python3 "$here/gen.py"
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=$CONF_DIR/target cargo run --offline --quiet --release > real.txt
python3 "$here/run.py" "$@"
cd / && rm -rf "$CONF_DIR"
