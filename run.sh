#!/bin/bash
# run.sh quick|thorough CNN   run the check of a property
# run.sh replay FILE          re-run the failing case recorded in FILE
cd "$(dirname "$0")" || exit 3
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOFLAGS=-mod=readonly
d=$(mktemp -d /tmp/mcdrive.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
(cd mc && go build -o "$d/mcdrive" ./cmd/mcdrive) || exit 3
case "$1" in
replay) "$d/mcdrive" -replay "$2" ;;
*) mode=$1; p=$2; shift 2; "$d/mcdrive" -prop "$p" -tier "$mode" "$@" ;;
esac
