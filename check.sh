#!/bin/bash
# check.sh <property> [quick|thorough] [extra vh flags]   decide one property on /repo's working tree
# check.sh replay <file>                                  run one replay file
# Builds the harness and the application from /repo into a scratch directory that is removed at the end.
set -u
verif=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/go/bin:$PATH" LC_ALL=C.UTF-8
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
repo=/repo
prop=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case "$seed" in ''|*[!0-9]*) seed=1;; esac
scratch=$(mktemp -d /tmp/vh.XXXXXX) || exit 2
chmod 755 "$scratch"
cleanup() { chmod -R u+rwx "$scratch" 2>/dev/null; rm -rf -- "$scratch"; }
trap cleanup EXIT
trap 'exit 2' INT TERM HUP

"$verif/build.sh" "$scratch" >"$scratch/build.log" 2>&1 || { cat "$scratch/build.log" >&2; echo "build failed" >&2; exit 2; }

if [ "$prop" = replay ]; then
	"$scratch/vh" replay -file "${2:?replay file}" -bin "$scratch/1pass" -scratch "$scratch"
	exit $?
fi
shift; [ $# -gt 0 ] && shift
"$scratch/vh" check -prop "$prop" -tier "$tier" -seed "$seed" -bin "$scratch/1pass" -scratch "$scratch" -verif "$verif" "$@"
exit $?
