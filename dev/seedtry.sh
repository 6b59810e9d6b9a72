#!/bin/bash
# seedtry.sh <id>: demo on /repo and on a patched copy in /tmp/sr
id=$1; V=/verif
rm -rf /tmp/sr; mkdir /tmp/sr; cp -a /repo/. /tmp/sr/
cd /tmp/sr && git checkout -q -- . 
time bash $V/seeded/$id/demo.sh; echo "clean rc $?"
git apply $V/seeded/$id/patch.diff || exit 1
bash $V/seeded/$id/demo.sh 2>&1 | tail -5; echo "patched rc ${PIPESTATUS[0]}"
