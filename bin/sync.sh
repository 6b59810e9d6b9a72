#!/bin/bash
# Mirrors the parts of /repo that the harness compiles into /verif/build/src, by content (so that
# an unchanged file keeps its mtime and cargo does not rebuild). Never writes to /repo.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${REPO:-/repo}"
mkdir -p "$V/build/src"
rsync -rlpc --delete --exclude=target --exclude=.git "$REPO/programs" "$REPO/lib" "$REPO/bin" "$V/build/src/"
