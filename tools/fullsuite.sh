#!/bin/bash
# Runs the whole C suite of /repo (not only its stable subset) in a scratch copy,
# with the generator built from the same tree. Used to validate fix: commits.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
git -C /repo ls-files -co --exclude-standard -z | (cd /repo && xargs -0 cp --parents -t "$D" 2>/dev/null) 
sed "s#/verif/shims#$V/shims#" "$V/gomod/go.mod.in" > "$D/_gomod.mod"; cp /repo/go.sum "$D/_gomod.sum"
cd "$D"
GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod go build -modfile=_gomod.mod -o metac .
touch metac
make -j8 METAC=./metac bin_test > log 2>&1 || { tail -40 log; exit 1; }
grep -E '^[0-9]+%' log
