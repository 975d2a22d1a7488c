#!/bin/bash
# Nothing needs to be kept: every check builds its driver from /repo's working tree.
# This only proves that the toolchain works and warms the build cache.
set -e
cd "$(dirname "$0")"
t=$(mktemp -d)
bash harness/build.sh "$t/bin" 8
ls "$t/bin/drive8" >/dev/null
rm -rf "$t"
