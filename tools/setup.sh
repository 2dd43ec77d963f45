#!/bin/bash
# Builds the harness once (warms Go's build cache; every check builds again from /repo's tree).
set -eu
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOENV=off GO111MODULE=on CGO_ENABLED=${CGO_ENABLED:-1}
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export REPO=${REPO:-/repo} VERIF_DIR=$here
s=$(mktemp -d /tmp/verif-setup.XXXXXXXX)
trap 'rm -rf "$s"' EXIT
. "$here/tools/build.sh"
build_harness "$s" C26
mkdir -p "$s/race"
build_harness "$s/race" C21
"$s/vh" list x > /dev/null
echo "setup ok"
