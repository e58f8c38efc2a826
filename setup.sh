#!/bin/bash
# Nothing has to be built ahead: every check builds what it needs from /repo.
# This only makes sure that the tools are there and warms the build caches.
set -u
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.24.13/bin:/root/.cargo/bin:$PATH
for t in go cargo rustc gcc node protoc; do command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }; done
[ -x /opt/veriftools/node/node_modules/.bin/esbuild ] || { echo "missing tool: esbuild"; exit 1; }
echo ok
