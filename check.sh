#!/bin/bash
# check.sh PROPERTY GROUP...   - builds the symbolic engine and decides one
# property over the harness groups named. Exit 0 held / 1 violation.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
prop="$1"; shift
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh >/dev/null 2>&1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOFLAGS=-mod=mod GOTOOLCHAIN=local
tier="${VERIF_TIER:-quick}"
mkdir -p "$here/evidence" "$here/.build"
bin="$(mktemp -d "${TMPDIR:-/tmp}/gosym.XXXXXX")"
trap 'rm -rf -- "$bin"' EXIT
if ! (cd "$here/gosym" && go build -o "$bin/gosym" .) >"$bin/build.log" 2>&1; then
  cat "$bin/build.log"; echo "engine build failed"; exit 2
fi
"$bin/gosym" -tier "$tier" -prop "$prop" -out "$here/evidence/$prop.json" "$@"
