#!/bin/bash
# run.sh PROPERTY [quick|thorough] [flags...]   decide one property
# run.sh replay FILE                            run one recorded violation again
# Everything is rebuilt from /repo's working tree in a scratch directory.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
T=$(mktemp -d /tmp/mcrun.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT

plain() {
	( cd "$VERIF/mc" && CGO_ENABLED=0 go build -o "$T/mc" ./cmd/mc ) || { echo "cannot build the checker" >&2; exit 3; }
}
# instrumented INSTRUMENT-FLAGS BUILD-FLAGS: a build whose map iteration orders
# (and, with -yield, schedules) the checker decides.
instrumented() {
	( cd "$VERIF/mc" && CGO_ENABLED=0 go build -o "$T/instrument" ./cmd/instrument && "$T/instrument" -out "$T/ov" $1 &&
		go build $2 -overlay "$T/ov/overlay.json" -o "$T/mc" ./cmd/mc ) 2>"$T/err" && return
	echo "note: no instrumented build ($(head -c 300 "$T/err")), using the plain one" >&2
	plain
}
build() { # PROPERTY
	case "$1" in
	C13|C14|C16) CGO_ENABLED=0 instrumented "" "" ;;
	C17)
		export GORACE="exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=5"
		CGO_ENABLED=1 instrumented "-yield" "-race"
		;;
	*) plain ;;
	esac
}
case "$1" in
replay)
	build "$(grep -o '"property": *"[^"]*"' "$2" | head -1 | grep -o 'C[0-9]*')"
	"$T/mc" -replay "$2" -verif "$VERIF"
	exit $?
	;;
*)
	P=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
	build "$P"
	"$T/mc" -prop "$P" -tier "$TIER" -verif "$VERIF" "$@"
	exit $?
	;;
esac
