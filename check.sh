#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property against /repo's working tree
# check.sh replay FILE                 re-run one recorded execution
# check.sh build                       build everything (setup)
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
for g in /opt/veriftools/go1.27.3/bin; do [ -d $g ] && PATH=$g:$PATH; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod GOTELEMETRY=off
B=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
ROOT=$(go env GOROOT) || exit 2

binary_of() { # property -> binary
	case $1 in
	C25|C26|C27|C28) echo text ;;
	C29) echo smith ;;
	*) echo core ;;
	esac
}

build() { # binary
	local T=$ROOT/src/internal/runtime/maps/table.go
	sed -e 's/^\tit.entryOffset = rand()/\tit.entryOffset = verifIterRand()/; s/^\tit.dirOffset = rand()/\tit.dirOffset = verifIterRand()/' "$T" > "$B/table.go" || return 2
	cat >> "$B/table.go" <<'X'

var VerifMode uint64
var VerifOffset uint64

func verifIterRand() uint64 {
	if VerifMode == 0 {
		return rand()
	}
	return VerifOffset
}
X
	local drop=''
	[ "$1" = core ] && drop='"/repo/parser.go": "", "/repo/unparser.go": "",'
	if [ "$1" != core ]; then # what the binaries share
		local f
		for f in util.go gen.go vary.go; do drop="$drop \"$VERIF/harness/cmd/$1/$f\": \"$VERIF/harness/cmd/core/$f\","; done
	fi
	printf '{"Replace": {%s "%s": "%s"}}' "$drop" "$T" "$B/table.go" > "$B/overlay.$1.json"
	# a private copy of go.mod/go.sum, so that nothing in /verif or /repo is rewritten
	mkdir -p "$B/mod"
	sed -e "s#\.\./standin#$VERIF/standin#" "$VERIF/harness/go.mod" > "$B/mod/go.mod"
	cat "$VERIF/harness/go.sum" /repo/go.sum 2>/dev/null | sort -u > "$B/mod/go.sum"
	(cd "$VERIF/harness" && go build -modfile "$B/mod/go.mod" -overlay "$B/overlay.$1.json" -ldflags=-checklinkname=0 -o "$B/$1" ./cmd/$1)
}

case ${1:-} in
replay)
	id=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
	b=$(binary_of "$id")
	build "$b" || exit 2
	"$B/$b" replay "$2"
	exit $? ;;
build)
	rc=0
	for b in core text smith; do [ -d "$VERIF/harness/cmd/$b" ] && { build $b || rc=2; }; done
	exit $rc ;;
C[0-9]*)
	tier=${2:-${VERIF_TIER:-quick}}
	b=$(binary_of "$1")
	build "$b" || { echo "check.sh: the harness does not build against /repo" >&2; exit 2; }
	"$B/$b" check "$1" "$tier" "$VERIF"
	exit $? ;;
*) echo "usage: check.sh PROPERTY [quick|thorough] | replay FILE | build" >&2; exit 2 ;;
esac
