# Sourced. build_sim DIR MODE builds DIR/sim from the working tree of /repo.
# MODE is normal, race or asan. Nothing is written into /repo. For experiments with
# changed code, VSIM_DEV_REPO names a copy to be used in place of /repo.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root}
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
GO=/usr/lib/go-1.21/bin/go

build_sim() {
	local dir=$1 mode=$2 flags=() dev=() simdir work=
	simdir=$(cd "$(dirname "${BASH_SOURCE[0]}")/../sim" && pwd) || return 1
	case $mode in
	race) flags=(-race); export CGO_ENABLED=1 ;;
	work) work=-work ;;
	asan) flags=(-asan); export CGO_ENABLED=1 ;;
	esac
	cd "$simdir" || return 1
	local repo=${VSIM_DEV_REPO:-/repo}
	if [ "$repo" != /repo ]; then
		sed "s|=> /repo\$|=> $repo|" go.mod > "$dir/dev.mod" && cp go.sum "$dir/dev.sum" || return 1
		dev=("-modfile=$dir/dev.mod")
	fi
	$GO build -o "$dir/instr" ./cmd/instr || return 1
	"$dir/instr" $work -repo "$repo" -out "$dir/ov" -overlaysrc overlay > "$dir/instr.log" || return 1
	BUILD_NOTE="$mode, $(cat "$dir/instr.log")"
	$GO build "${flags[@]}" "${dev[@]}" -overlay "$dir/ov/overlay.json" -o "$dir/sim" ./cmd/sim 2> "$dir/build.err" && return 0
	if [ "$mode" = work ]; then
		"$dir/instr" -repo "$repo" -out "$dir/ov" -overlaysrc overlay > "$dir/instr.log" || return 1
	fi
	if [ "$mode" != normal ] && $GO build "${dev[@]}" -overlay "$dir/ov/overlay.json" -o "$dir/sim" ./cmd/sim 2> /dev/null; then
		BUILD_NOTE="normal instead of $mode (it does not build), $(cat "$dir/instr.log")"
		return 0
	fi
	# Without statement hooks.
	"$dir/instr" -plain -repo "$repo" -out "$dir/ovp" -overlaysrc overlay > "$dir/instr.log" || return 1
	if $GO build "${flags[@]}" "${dev[@]}" -overlay "$dir/ovp/overlay.json" -o "$dir/sim" ./cmd/sim; then
		BUILD_NOTE="$mode, without statement hooks: $(head -c 300 "$dir/build.err")"
		return 0
	fi
	return 1
}
