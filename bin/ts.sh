#!/usr/bin/env bash
# Bundles the TypeScript client of $REPO with the stand-ins in ts/ into build/ts/server.js.
set -e
cd "$(dirname "$0")/.."
REPO=${REPO:-/repo}
mkdir -p build/ts
node ts/build.cjs "$REPO/ts/client/src" build/ts/server.js
