#!/bin/bash
# Warms the build cache: builds the engine once. Checks build it again themselves.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh >/dev/null 2>&1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOTOOLCHAIN=local
cd "$here/gosym" && d="$(mktemp -d)" && go build -o "$d/gosym" . && rm -rf -- "$d"
