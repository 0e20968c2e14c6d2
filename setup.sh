#!/bin/bash
# Builds the harness once (with and without the race detector), which fills the Go build cache.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
. /opt/vp/env.sh >/dev/null 2>&1
scratch=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 3
trap 'rm -rf "$scratch"' EXIT
cd harness && go build -trimpath -o "$scratch/h" . && go build -trimpath -race -o "$scratch/hr" . && go build -trimpath -o "$scratch/rdap" github.com/openrdap/rdap/cmd/rdap || exit 3
echo "harness builds; $("$scratch/h" list | wc -l) properties"
