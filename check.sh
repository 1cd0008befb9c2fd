#!/bin/bash
# bash check.sh PROPERTY [quick|thorough] [--case N]
# Builds the harness and the xgen command from /repo's working tree, runs the
# monitors of one property, rewrites evidence/PROPERTY.json.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: error.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd) || exit 2
prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case "$seed" in ''|*[!0-9]*) seed=1 ;; esac
shift; [ $# -gt 0 ] && shift
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB=* GOFLAGS="-mod=mod -buildvcs=false"
unset GOPATH GOWORK GO111MODULE
umask 022
scratch=$(mktemp -d "${TMPDIR:-/tmp}/xgen-verif.XXXXXXXX") || exit 2
chmod 755 "$scratch"
trap 'chmod -R u+rwx "$scratch" 2>/dev/null; rm -rf -- "$scratch"' EXIT
trap 'exit 2' INT TERM HUP
cd "$here/harness" || exit 2
race=
[ "$prop" = C04 ] && race=-race
if ! go build $race -o "$scratch/xv" . ; then echo "error: the harness does not build"; exit 2; fi
if ! go build -o "$scratch/xgen" github.com/xuri/xgen/cmd/xgen; then echo "error: the command does not build"; exit 2; fi
cd "$scratch" || exit 2
"$scratch/xv" -prop "$prop" -tier "$tier" -seed "$seed" -scratch "$scratch" -bin "$scratch/xgen" \
    -harness "$here/harness" -root "$here" "$@"
code=$?
exit $code
