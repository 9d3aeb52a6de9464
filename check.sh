#!/bin/bash
# check.sh ID quick|thorough   - decide one property on /repo's current tree
# check.sh replay FILE         - run a replay file again
# check.sh build DIR [race]    - only build the simulator of the current tree into DIR
# check.sh setup               - see that both builds of the simulator work
# exit 0: held; 1: violation; 2: no answer (build or machinery trouble)
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOENV=off GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GODEBUG GORACE GOMAXPROCS

build() { # DIR race?
  local d=$1 race=${2:-}
  mkdir -p "$d" && cp -r "$HERE/sim/." "$d/" || return 2
  (cd "$d/instrument" && go build -o "$d/instrument.bin" .) >"$d/log" 2>&1 || { cat "$d/log" >&2; return 2; }
  "$d/instrument.bin" -src "$REPO" -dst "$d/sut" >"$d/log" 2>&1 || { cat "$d/log" >&2; echo "instrumenting $REPO failed" >&2; return 2; }
  if [ "$race" = race ]; then
    # The compiler's size-specialised malloc calls (emitted in uninstrumented packages) hide
    # allocations from the race detector, so that reused memory would look shared.
    # Inlined into the harness, library code would not be instrumented (-l).
    # sync.Pool of a race build drops objects at random and orders goroutines: neither may happen here
    sed -e '/^func (p \*Pool) Put(x any) {/a if race.Enabled { return }' \
        -e '/^func (p \*Pool) Get() any {/a if race.Enabled { if p.New != nil { return p.New() }; return nil }' \
      "$(go env GOROOT)/src/sync/pool.go" >"$d/pool.go" || return 2
    printf '{"Replace":{"%s":"%s"}}' "$(go env GOROOT)/src/sync/pool.go" "$d/pool.go" >"$d/overlay.json"
    (cd "$d/harness" && GOEXPERIMENT=nosizespecializedmalloc go build -trimpath -overlay "$d/overlay.json" -race -gcflags='verif.local/vsim/...=-race=false' -gcflags='verif.local/harness=-race=false -l' -o "$d/x" .) >"$d/log" 2>&1
  else
    (cd "$d/harness" && go build -trimpath -o "$d/x" .) >"$d/log" 2>&1
  fi || { cat "$d/log" >&2; echo "building the simulator for $REPO failed" >&2; return 2; }
}

israce() { [ "$1" = C02 ] && echo race; }

if [ "${1:-}" = build ]; then
  build "$2" "${3:-}"; exit $?
fi
S=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXXXX") || exit 2
trap 'rm -rf -- "$S"' EXIT
trap 'exit 2' INT TERM
case "${1:-}" in
setup)
  build "$S/n" && build "$S/r" race || exit 2
  exit 0 ;;
replay)
  f=$(readlink -f "$2") || exit 2
  id=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$f" | head -1)
  build "$S/b" "$(israce "$id")" || exit 2
  "$S/b/x" replay -scratch "$S" "$f"
  exit $? ;;
C[0-9][0-9])
  build "$S/b" "$(israce "$1")" || exit 2
  "$S/b/x" check -id "$1" -tier "${2:-quick}" -scratch "$S" -verif "$HERE"
  exit $? ;;
*) echo "usage: check.sh ID quick|thorough | replay FILE | build DIR [race]" >&2; exit 2 ;;
esac
