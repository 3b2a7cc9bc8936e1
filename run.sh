#!/bin/bash
# run.sh PROPERTY [quick|thorough]   check one property
# run.sh replay FILE                 replay a recorded violation
# run.sh setup                       build everything once
set -u
here="$(cd "$(dirname "$0")" && pwd)"
unset GOFLAGS GOWORK GOOS GOARCH GOEXPERIMENT GODEBUG
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
mkdir -p "$here/build"
tool="$here/build/dripcheck.$$"
trap 'rm -f "$tool"' EXIT
(cd "$here/dripcheck" && GOWORK=off GOFLAGS= GOCACHE="$here/build/gocache" go build -o "$tool" .) || exit 2
export VERIF_DIR="$here"
case "${1:-}" in
setup)
	"$tool" build || exit 2
	"$tool" build race || exit 2
	;;
replay) "$tool" replay "$2" ;;
C*) "$tool" check "$@" ;;
*) echo "usage: run.sh PROPERTY [quick|thorough] | replay FILE | setup" >&2; exit 2 ;;
esac
