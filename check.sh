#!/bin/bash
# check.sh <property id> [quick|thorough]      run a check
# check.sh replay <file>                       replay a failing execution
# check.sh one <prop> <world> <index>          trace one run
here="$(cd "$(dirname "$0")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
tmp="$(mktemp -d /tmp/vsimdrv-XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/driver" && go build -o "$tmp/driver" .) || { echo "vsim: ERROR: the driver does not build" >&2; exit 2; }
case "$1" in
setup) "$tmp/driver" setup -verif "$here" ;;
replay) "$tmp/driver" replay -verif "$here" -file "$2" ;;
one) "$tmp/driver" one -verif "$here" -prop "$2" -world "$3" -idx "$4" ;;
*) p="$1"; shift; t="${1:-${VERIF_TIER:-quick}}"; shift; "$tmp/driver" check -verif "$here" -prop "$p" -tier "$t" "$@" ;;
esac
