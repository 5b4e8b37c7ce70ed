#!/bin/bash
# Compiles the harness and the application once, so that the checks find a warm build cache.
set -eu
cd "$(dirname "${BASH_SOURCE[0]}")"
d=$(mktemp -d /tmp/vh-setup.XXXXXX)
trap 'rm -rf -- "$d"' EXIT
bash build.sh "$d"
