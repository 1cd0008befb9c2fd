#!/bin/bash
# Checks that everything the checks need is there and that the harness builds.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd) || exit 1
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false"
mkdir -p "$here/evidence" "$here/replays"
cd "$here/harness" && go build -o /dev/null . || exit 1
for t in tsc javac rustc clang gcc; do
    command -v $t >/dev/null || echo "note: $t is missing"
done
exit 0
