#!/bin/bash
# check.sh ID [quick|thorough]      run the check of one property
# check.sh ID --replay FILE         re-run a stored failure
# check.sh --build                  only build everything (warms the Go build cache)
# Exit: 0 held, 1 violation (VIOLATION line), 3 error of the check.
export HOME=/root PATH=/usr/local/bin:/usr/local/go/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod GOTELEMETRY=off
V=$(cd "$(dirname "$0")" && pwd)
R=/repo
base=/dev/shm
[ -d "$base" ] && [ -w "$base" ] && [ "$(df -Pk $base | awk 'NR==2{print $4}')" -gt 8000000 ] || base=/tmp
S=$(mktemp -d "$base/dupiverif.XXXXXX") || exit 3
chmod 755 "$S"
cleanup() { rm -rf "$S"; }
trap cleanup EXIT
trap 'exit 3' INT TERM

mkdir "$S/bin" || exit 3
cp "$V/harness/go.mod" "$S/go.mod" && cp "$V/harness/go.sum" "$S/go.sum" || exit 3
cp "$R/go.mod" "$S/repo.mod" && cp "$R/go.sum" "$S/repo.sum" || exit 3
printf '{"Replace":{"%s/zzverif/shardx/shardx.go":"%s/overlay/shardx.go"}}' "$R" "$V" > "$S/overlay.json"
printf '{"Replace":{"%s/attic/zz_verif_bposts.go":"%s/overlay/bpostsx.go"}}' "$R" "$V" > "$S/bposts.json"

binof() {
	case "$1" in
	P17|P18|P19|P31) echo faults;;
	P13) echo shard;;
	P08|P12|P16|P26) echo unit;;
	P21|P22|P23|P24|P25|P32|P33) echo cli;;
	P30) echo attic;;
	P34) echo bposts;;
	*) echo core;;
	esac
}
# hooks adds to the overlay a standard library in which the harness can watch
# and refuse the operations of the code under test on files.
hooks() {
	local g d=$S/syscall f
	g=$(cd "$V/harness" && go env GOROOT) && mkdir "$d" || exit 3
	for f in syscall_unix.go syscall_linux.go zsyscall_linux_amd64.go; do
		sed -E 's/^func (Write|Pwrite|Read|Pread|Open|Ftruncate|Truncate|Mkdir|Rename|Unlink|Rmdir|Link)\(/func v\1(/' "$g/src/syscall/$f" > "$d/$f" || exit 3
	done
	printf '{"Replace":{"%s/zzverif/shardx/shardx.go":"%s/overlay/shardx.go"' "$R" "$V" > "$S/overlay.json"
	for f in syscall_unix.go syscall_linux.go zsyscall_linux_amd64.go; do
		printf ',"%s/src/syscall/%s":"%s/%s"' "$g" $f "$d" $f >> "$S/overlay.json"
	done
	printf ',"%s/src/syscall/zz_verif_syscall.go":"%s/overlay/zz_verif_syscall.go"}}' "$g" "$V" >> "$S/overlay.json"
}
build() { # build NAME [extra go build flags]
	local n=$1; shift
	local o=overlay
	[ "$n" = faults ] && hooks
	[ "$n" = bposts ] && o=bposts
	(cd "$V/harness" && go build "$@" -overlay "$S/$o.json" -modfile "$S/go.mod" -o "$S/bin/$n" "./cmd/$n") || { echo "ERROR cannot build harness $n against /repo"; exit 3; }
}
buildcli() {
	local d
	for d in "$@"; do
		(cd "$R" && go build -modfile "$S/repo.mod" -o "$S/bin/$d" ./cmd/$d) || { echo "ERROR cannot build /repo/cmd/$d"; exit 3; }
	done
}
needcli() { case "$1" in P21|P22|P23|P24|P25|P32|P33) return 0;; esac; return 1; }

if [ "$1" = --build ]; then
	for n in core unit shard attic bposts cli; do build $n; done
	buildcli dupi dupenron
	build faults
	echo "built"
	exit 0
fi
id=$1
b=$(binof "$id")
race=0
flags=()
if [ "$2" = --replay ]; then
	grep -q '"Race": true' "$3" && race=1
else
	tier=${2:-${VERIF_TIER:-quick}}
	if [ "$tier" = thorough ]; then case "$id" in P06|P07) race=1;; esac; fi
fi
[ $race = 1 ] && flags=(-race)
build $b "${flags[@]}"
needcli "$id" && buildcli dupi
[ "$id" = P33 ] && buildcli dupenron
chmod 755 "$S/bin" "$S"/bin/*
if [ "$2" = --replay ]; then
	"$S/bin/$b" replay "$(realpath "$3")" "$S" "$V" dupi="$S/bin/dupi" dupenron="$S/bin/dupenron" self="$S/bin/$b" race=$race
else
	"$S/bin/$b" run "$id" "$tier" "$S" "$V" dupi="$S/bin/dupi" dupenron="$S/bin/dupenron" self="$S/bin/$b" race=$race
fi
