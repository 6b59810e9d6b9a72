#!/bin/bash
V="$(cd "$(dirname "$0")/.." && pwd)"
cd "$V" || exit 2
bash bin/sync.sh && bash bin/ts.sh && { cargo build --release -p harness || cargo build --release -p harness --no-default-features; }
