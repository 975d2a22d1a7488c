#!/bin/bash
# build.sh OUTDIR [KEYSIZE]: builds the conformance driver from $VERIF_REPO's working tree
# (default /repo) into OUTDIR/drive.  Everything is written below OUTDIR.
set -e
out=$1; ks=${2:-8}; repo=${VERIF_REPO:-/repo}
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && { source /opt/vp/env.sh; }
if [ "$repo" != /repo ]; then
  hdrs=$(cat $repo/indextree/b/cppbtree/cpp-btree-1.0.1/*.h 2>/dev/null | sha256sum | cut -c1-16)
  export CGO_CXXFLAGS="-O2 -g -DVP_BTREE_HEADERS=0x$hdrs"
fi
cd "$here"
mkdir -p "$out/ov$ks"
sed "s#=> /repo#=> $repo#" go.mod > "$out/go.mod"
cp "$repo/go.sum" "$out/go.sum"
export GOFLAGS=-mod=mod
[ -x "$out/mkoverlay" ] || CGO_ENABLED=0 go build -o "$out/mkoverlay" ./cmd/mkoverlay
"$out/mkoverlay" "$repo" "$out/ov$ks" "$ks"
race=; [ -n "$VERIF_RACE" ] && race=-race
go build $race -modfile="$out/go.mod" -overlay "$out/ov$ks/overlay.json" -tags cppbtree -o "$out/drive$ks${race:+r}" ./cmd/drive
