#!/bin/bash
# usage: run.sh PROPERTY [--replay FILE | --case N | --tier T | --seed S]
# Rebuilds the reference oracle and the harness against /repo's working tree and runs one check.
export HOME=/root
# Not go1.27.3: with -race its compiler narrows int64(uint16) <= int64 comparisons (see DESIGN.md).
export PATH=/opt/veriftools/go1.26.10/bin:/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false" GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS
export CGO_ENABLED=1 LC_ALL=C.UTF-8
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root VERIF_BUILD=$root/build
mkdir -p "$VERIF_BUILD" "$root/evidence" || exit 2
exec 9>"$VERIF_BUILD/.lock"
flock 9 || exit 2
fail() { echo "BUILD-ERROR: $1" >&2; exit 2; }
if [ ! -x "$VERIF_BUILD/ncref" ] || [ "$root/ref/ncref.c" -nt "$VERIF_BUILD/ncref" ] || [ "$root/ref/shim.c" -nt "$VERIF_BUILD/ncref" ]; then
  gcc -O1 -w -o "$VERIF_BUILD/ncref.tmp" -rdynamic "$root/ref/ncref.c" "$root/ref/shim.c" /usr/lib/x86_64-linux-gnu/libnetcdf.so.19 /usr/lib/x86_64-linux-gnu/libhdf5_serial.so.103 || fail ncref
  mv "$VERIF_BUILD/ncref.tmp" "$VERIF_BUILD/ncref"
fi
cd "$root/harness" || exit 2
race=-race
bin=harness-race
case "$1" in N16|N17|N21|N23) race=; bin=harness-plain;; esac
if [ "$1" = build ]; then go build -o "$VERIF_BUILD/plain.$$" . || fail "harness (plain)"; rm -f "$VERIF_BUILD/plain.$$"; fi
go build $race -o "$VERIF_BUILD/$bin.$$" . || fail "harness"
flock -u 9
trap 'rm -f "$VERIF_BUILD/$bin.$$"' EXIT
[ "$1" = build ] && exit 0
"$VERIF_BUILD/$bin.$$" "$@"
