#!/bin/bash
# build.sh DIR: builds the harness (DIR/vh) and the application (DIR/1pass) from /repo's working tree.
# go.mod/go.sum copies are used so that nothing tracked changes, and the application gets one extra
# source file through an overlay: it lets the environment name the DNS server (see hook/dns_hook.go.txt).
set -eu
verif=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
dir=${1:?usage: build.sh DIR}
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/go/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
cp "$verif/harness/go.mod" "$dir/vh.mod"; cp "$verif/harness/go.sum" "$dir/vh.sum"
(cd "$verif/harness" && go build -modfile="$dir/vh.mod" -o "$dir/vh" .) &
p1=$!
cp /repo/1pass-app/go.mod "$dir/app.mod"; cp /repo/1pass-app/go.sum "$dir/app.sum"
cat >"$dir/overlay.json" <<J
{"Replace": {"/repo/1pass-app/zz_verif_dns_hook.go": "$verif/hook/dns_hook.go.txt"}}
J
(cd /repo/1pass-app && go build -modfile="$dir/app.mod" -overlay "$dir/overlay.json" -ldflags "-s -w" -o "$dir/1pass" .)
wait $p1
chmod 755 "$dir/1pass" "$dir/vh"
