#!/bin/sh
# builds the extractor and the harness from the committed files, offline
cd "$(dirname "$0")" || exit 1
(cd vx && cargo build --release --offline -q) || exit 1
(cd harness && cargo build --offline -q) || exit 1
mkdir -p evidence build
