#!/bin/bash
# run.sh Cxx [--replay FILE]: build the checker against /repo's working tree and run one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=0
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
unset SSH_AUTH_SOCK
umask 022
work=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 2
chmod 711 "$work"
trap 'chmod -R u+rwx "$work" 2>/dev/null; rm -rf "$work"' EXIT
trap 'exit 2' INT TERM
export MC_WORK=$work MC_VERIF=$here
cd "$here/mc" || exit 2
if ! go build -buildvcs=false -o "$work/mc" . >"$work/build.log" 2>&1; then
	cat "$work/build.log" >&2
	echo "check error: cannot build against /repo" >&2
	exit 2
fi
"$work/mc" check "$@"
