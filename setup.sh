#!/bin/bash
# Build every checker once, offline.
cd "$(dirname "$0")/mc" && mkdir -p target ../evidence ../replays && CARGO_NET_OFFLINE=true cargo build --release --offline --locked --bins
