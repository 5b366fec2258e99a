#!/bin/bash
cd "$(dirname "$0")"; RUSTUP_TOOLCHAIN=1.98.1-x86_64-unknown-linux-gnu DOCS_RS=1 CARGO_INCREMENTAL=1 cargo build --offline 2>&1 | grep -v '^ *Compiling' | grep -A14 '^error' | head -${1:-80}
