#!/bin/bash
# usage: run.sh check ID | run.sh replay FILE | run.sh setup
# Builds the harness from the working tree of /repo and runs it.
here=$(cd "$(dirname "$0")" && pwd) || exit 3
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export VERIF_DIR=$here GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
unset GORACE GOMAXPROCS GODEBUG GOARCH GOOS
cgo=1
out=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 3
trap '/bin/rm -rf "$out"' EXIT
build() { # ARGS OUT
  (cd "$here/harness" && CGO_ENABLED=$cgo go build "$@" .) && return
  echo "error: the harness doesn't build" >&2
  exit 3
}
# The parts which control schedules need a build with a call in front of every
# statement of the packages: tools/yield makes an overlay with that.
buildsched() { # OUT
  mkdir "$out/overlay" &&
  (cd "$here/tools/yield" && go run main.go /repo "$out/overlay" ip ipv4 ipv6) &&
  (cd "$here/harness" && CGO_ENABLED=0 go build -tags verifsched -overlay "$out/overlay/overlay.json" -o "$1" .)
}
# GOARCH of a check: C32 is about 32 bit platforms
arch() { case "$1" in C32) export GOARCH=386; cgo=0;; esac; }
race() { case "$1" in C25|C26|C33) echo -race;; esac; }
case "$1" in
  setup)
    build -o "$out/h" && build -race -o "$out/hr" && buildsched "$out/hs"
    ;;
  check)
    arch "$2"
    unset VERIF_SCHED
    case "$2" in C25|C26|C33)
      if buildsched "$out/hs"; then export VERIF_SCHED=$out/hs; else echo "note: no build with yields"; fi;;
    esac
    build $(race "$2") -o "$out/h"
    "$out/h" check "$2"
    ;;
  replay)
    id=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -n 1)
    arch "$id"
    if grep -q '"part": *"sched-' "$2"; then
      buildsched "$out/h" || exit 3
    else
      build $(race "$id") -o "$out/h"
    fi
    GORACE="halt_on_error=1 exitcode=66" "$out/h" replay "$2"
    ;;
  *)
    echo "usage: run.sh check ID | replay FILE | setup" >&2
    exit 2
    ;;
esac
