#!/usr/bin/env bash
# check.sh build            instrument /repo's working tree and build the simulator
# check.sh PROPERTY         build, then check a property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE      build, then replay a recorded violation
# check.sh COMMAND ...      build, then any other command of the simulator
set -u
start=$PWD
here=$(cd "$(dirname "$0")" && pwd)
repo=${VSIM_REPO:-/repo}
build=${VSIM_BUILD:-$here/build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
unset GOOS GOARCH GOEXPERIMENT GODEBUG || true
mkdir -p "$build"

prepare() {
	cd "$here/sim" || return 1
	if [ "$repo" != /repo ]; then
		# Development only: check another copy of the repository.
		sed "s#=> /repo\$#=> $repo#" go.mod >"$build/alt.mod"
		mod=(-modfile="$build/alt.mod")
	else
		mod=()
	fi
	go build -buildvcs=false "${mod[@]}" -o "$build/instrument" ./cmd/instrument || return 1
	rm -rf "$build/overlay.new"
	"$build/instrument" -shims "$here/sim" -repo "$repo" -out "$build/overlay.new" || return 1
	# The overlay names its own directory, so it is moved into place before use.
	rm -rf "$build/overlay"
	mv "$build/overlay.new" "$build/overlay"
	sed -i "s#$build/overlay.new/#$build/overlay/#" "$build/overlay/overlay.json"
	go build -buildvcs=false "${mod[@]}" -overlay "$build/overlay/overlay.json" -o "$build/vsim.new" ./cmd/vsim || return 1
	mv -f "$build/vsim.new" "$build/vsim"
}

exec 9>"$build/.lock"
flock 9
if ! prepare 1>&2; then
	echo "check.sh: the simulator could not be built from $repo" >&2
	exit 3
fi
# Run a private copy, so that another check may rebuild meanwhile.
flock -u 9
case "${1:-}" in
build | "") exit 0 ;;
[AB][01][0-9]) set -- check -prop "$1" -verif "$here" -build "$build" "${@:2}" ;;
esac
exec 9>&-
cd "$start" || exit 2
exec "$build/vsim" "$@"
