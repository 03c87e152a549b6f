#!/bin/bash
# run.sh ID [quick|thorough] [flags]   decide a property on /repo's working tree
# run.sh replay FILE                   run the failing case of a replay file again
# run.sh setup                         check that the monitors build
# Exit 0: held on everything explored; 1: VIOLATION line(s) printed; 2: no verdict.
set -u
verif=$(cd "$(dirname "$0")" && pwd)
repo=/repo
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
id=${1:?usage: run.sh ID [quick|thorough]}
shift
work=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work

build() { # build [-race]
	cp -r "$verif/mon" "$work/src" &&
		go build -C "$work/src" "$@" -o "$work/mon" . && rm -rf "$work/src"
}

build32() { # the same for 32 bits; not all systems run that
	cp -r "$verif/mon" "$work/src" &&
		GOARCH=386 CGO_ENABLED=0 go build -C "$work/src" -o "$work/mon32" . && rm -rf "$work/src" &&
		"$work/mon32" list > /dev/null
}

# Properties whose monitor includes the race detector.
raced() { case $1 in C04 | C18) return 0 ;; *) return 1 ;; esac; }

case $id in
setup)
	build && build -race && "$work/mon" list
	exit
	;;
replay)
	file=${1:?usage: run.sh replay FILE}
	prop=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
	if grep -q '"arch": "386"' "$file"; then
		build32 && mv "$work/mon32" "$work/mon" || exit 2
	elif raced "$prop"; then build -race || exit 2; else build || exit 2; fi
	"$work/mon" replay "$file" -repo "$repo" -verif "$verif"
	exit
	;;
esac

tier=${1:-${VERIF_TIER:-quick}}
[ $# -gt 0 ] && shift
if raced "$id"; then build -race || exit 2; else build || exit 2; fi
if [ "$tier" = thorough ] && ! raced "$id"; then
	if build32; then set -- -alt "$work/mon32" "$@"; else echo "no 32-bit build, left out" >&2; fi
fi
"$work/mon" run "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -repo "$repo" -verif "$verif" "$@"
exit
