#!/bin/bash
# check.sh PROPERTY [quick|thorough]      decide one property on /repo's working tree
# check.sh PROPERTY --replay FILE         run a replay file again
# check.sh --setup                        warm the build cache
# Exit: 0 held, 1 violation, 2 trouble of the check itself.
set -u
V=$(cd "$(dirname "$0")" && pwd)
SRC=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
PROP=${1:-}
MODE=${2:-${VERIF_TIER:-quick}}
mkdir -p "$V/.work"
W=$(mktemp -d "$V/.work/run.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
trap 'exit 2' INT TERM

cat > "$W/h.mod" <<X
module zsim
go 1.25
require github.com/dmitryikh/leaves v0.0.0
replace github.com/dmitryikh/leaves => $W/leaves
X

# build FLAGS...: instrument the working tree and build the harness with it
build() {
	(cd "$V/sim" && go build -trimpath -o "$W/instrument" ./instrument) || return 1
	for level in ${VERIF_LEVELS:-full light}; do
		rm -rf "$W/leaves"
		mkdir -p "$W/leaves"
		"$W/instrument" "-$level" "$SRC" "$W/leaves" "$V/sim" > "$W/instrument.log" 2>&1 || { cat "$W/instrument.log" >&2; continue; }
		(cd "$V/sim" && go build -trimpath -modfile "$W/h.mod" "$@" -o "$W/h" ./harness) && return 0
	done
	return 1
}

case "$PROP" in
--setup)
	build || exit 2
	build -race || exit 2
	exit 0;;
C05|C16) build -race || exit 2;;
C??) build || exit 2;;
*) echo "usage: $0 PROPERTY [quick|thorough | --replay FILE]" >&2; exit 2;;
esac

if [ "$MODE" = --replay ]; then
	"$W/h" replay "$3"
	exit $?
fi
"$W/h" drive -prop "$PROP" -tier "$MODE" -seed "${VERIF_SEED:-1}" -verif "$V" -out "${VERIF_OUT:-$V}"
