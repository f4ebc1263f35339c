#!/bin/bash
# Warms the build cache so that each check only has to rebuild what changed.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p "$here/build"
cd "$here/harness" || exit 1
go build -o "$here/build/warm" . || exit 1
go build -race -o "$here/build/warm" . || exit 1
mkdir -p "$here/build/setup"
. "$here/tools/tool_overlay.sh"
tool_overlay "$here/build/setup" || exit 1
(cd /repo && go build -overlay "$here/build/setup/overlay.json" -o "$here/build/warm" ./cmd) || exit 1
rm -rf "$here/build/warm" "$here/build/setup"
cd /repo && go build ./... || exit 1
