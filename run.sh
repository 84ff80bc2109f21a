#!/bin/bash
# run.sh check PROPERTY [engine flags] | build | replay FILE
root="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOMODCACHE=/root/go/pkg/mod GOCACHE="${VERIF_GOCACHE:-/root/.cache/go-build}"
export GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GOSUMDB=off
build() {
	mkdir -p "$root/bin"
	(cd "$root/engine" && go build -o "$root/bin/engine" .)
}
case "$1" in
build) build ;;
check)
	shift
	if [ ! -x "$root/bin/engine" ] || [ -n "$(find "$root/engine" -newer "$root/bin/engine" -name '*.go')" ]; then build || exit 2; fi
	exec "$root/bin/engine" -root "$root" "${@:2}" "$1"
	;;
replay)
	shift
	[ -x "$root/bin/engine" ] || build || exit 2
	exec "$root/bin/engine" -root "$root" -replay "$1" x
	;;
*) echo "usage: $0 check PROPERTY | build | replay FILE" >&2; exit 2 ;;
esac
