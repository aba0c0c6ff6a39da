#!/bin/bash
# run.sh check ID         decides property ID on /repo's working tree (VERIF_TIER, VERIF_SEED)
# run.sh replay FILE      decides one saved case again
# run.sh setup            compiles everything once, to fill the build cache
# Exit: 0 held, 1 violated (with a VIOLATION line), anything else: the check itself failed.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS=-mod=mod
repo=/repo
work=$(mktemp -d /tmp/kfverif.XXXXXX) || exit 3
chmod 755 "$work"
trap 'find "$work" -depth -delete 2>/dev/null' EXIT

# the harness is built from a copy of its sources, so that the go command can
# not touch the committed go.mod and go.sum
build_harness() {
  mkdir "$work/src" && cp "$here"/harness/*.go "$here"/harness/dictbase.txt "$here"/harness/go.mod "$here"/harness/go.sum "$work/src/" || return 1
  (cd "$work/src" && go build "$@" .)
}
# likewise the module files of /repo
build_repo() {
  cp $repo/go.mod "$work/repo.mod" && cp $repo/go.sum "$work/repo.sum" || return 1
  (cd $repo && go build -modfile="$work/repo.mod" "$@")
}
cli()  { build_repo -o "$work/kuneiform" . && chmod 755 "$work/kuneiform" && export KF_CLI="$work/kuneiform"; }
wasm() { GOOS=js GOARCH=wasm build_repo -o "$work/kuneiform.wasm" ./wasm && export KF_WASM="$work/kuneiform.wasm" KF_WASM_EXEC="$(go env GOROOT)/lib/wasm/wasm_exec.js"; }
race() { build_harness -race -o "$work/kfrace" && export KF_RACE="$work/kfrace"; find "$work/src" -depth -delete; }

needs() { # what the property's check needs besides the harness
  case $1 in
    C20|C21|C22|C27) cli ;;
    C23) wasm ;;
    C15) race ;;
  esac
}

fail() { echo "run.sh: $*" >&2; exit 3; }

case $1 in
  setup)
    build_harness -o "$work/kfcheck" || fail "harness does not build"
    cli || fail "command does not build"
    wasm || fail "wasm does not build"
    find "$work/src" -depth -delete
    race || fail "race build failed"
    ;;
  check|replay)
    if [ "$1" = check ]; then id=$2; else id=$(grep -o '"prop": *"C[0-9]*"' "$2" | head -1 | grep -o 'C[0-9]*'); fi
    needs "$id" || fail "the code under test does not build"
    build_harness -o "$work/kfcheck" || fail "harness does not build"
    find "$work/src" -depth -delete
    export TMPDIR="$work"
    if [ "$1" = check ]; then
      "$work/kfcheck" check -prop "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$here"
    else
      "$work/kfcheck" replay -verif "$here" "$(realpath "$2")"
    fi
    exit $?
    ;;
  *) fail "usage: run.sh check ID | replay FILE | setup" ;;
esac
