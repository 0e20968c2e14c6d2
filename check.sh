#!/bin/bash
# check.sh ID [quick|thorough]   decide one property on /repo's working tree
# check.sh --replay FILE         run one replay file again
# The harness is built from the current tree on every run; nothing is kept.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export VERIF_DIR="$PWD"
repo=${VERIF_REPO_DIR:-/repo}
. /opt/vp/env.sh >/dev/null 2>&1
command -v go >/dev/null || { echo "HARNESS-ERROR: no go" >&2; exit 3; }
scratch=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 3
trap 'rm -rf "$scratch"' EXIT
sed "s#=> /repo#=> $repo#" harness/go.mod > "$scratch/go.mod" && cp harness/go.sum "$scratch/go.sum" || exit 3

build() { # build OUT FLAGS...
  local out=$1; shift
  local pkg=.; case ${1:-} in github.com/*) pkg=$1; shift;; esac
  (cd harness && go build -trimpath "$@" -modfile="$scratch/go.mod" -o "$out" $pkg) || { echo "HARNESS-ERROR: build failed" >&2; exit 3; }
}
program() { # the rdap program itself, where a property needs it
  case $1 in C30) build "$scratch/rdap" github.com/openrdap/rdap/cmd/rdap; export VERIF_RDAP_BIN="$scratch/rdap";; esac
}
if [ "$1" = --replay ]; then
  f=$(readlink -f "$2"); id=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$f" | head -1)
  if grep -q "^$id\$" harness/race.txt 2>/dev/null; then build "$scratch/h" -race; else build "$scratch/h"; fi
  program "$id"
  HOME=$scratch TMPDIR=$scratch XDG_CACHE_HOME= GORACE="halt_on_error=1 exitcode=66" \
    env -u HTTP_PROXY -u HTTPS_PROXY -u http_proxy -u https_proxy "$scratch/h" replay "$f"
  exit $?
fi
id=$1; tier=${2:-${VERIF_TIER:-quick}}
if grep -q "^$id\$" harness/race.txt 2>/dev/null; then build "$scratch/h" -race; else build "$scratch/h"; fi
program "$id"
if [ "$tier" = thorough ] && [ "$("$scratch/h" fuzzes "$id")" = true ]; then
  # The same harness, instrumented for Go's coverage-guided fuzzer.
  (cd harness && go test -c -trimpath -fuzz=FuzzSub -modfile="$scratch/go.mod" -o "$scratch/fuzz" .) && export VERIF_FUZZ_BIN="$scratch/fuzz"
fi
TMPDIR=$scratch "$scratch/h" run "$id" "$tier"
exit $?
