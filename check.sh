#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough] [--only KEY]
# Builds the checker for PROPERTY from /repo's current tree and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VP_REPO:-/repo}
prop=$1; shift
tier=${VERIF_TIER:-quick}
only=()
while [ $# -gt 0 ]; do
	case $1 in
	--only) only=(-only "$2"); shift 2 ;;
	*) tier=$1; shift ;;
	esac
done
ulimit -v 24000000 2>/dev/null
goroot=$(ls -d /opt/veriftools/go1.27.* 2>/dev/null | sort -V | tail -1)
[ -n "$goroot" ] || goroot=$(go env GOROOT)
unset GOROOT GOFLAGS GOWORK GOOS GOARCH GOEXPERIMENT GODEBUG
work=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export PATH=$goroot/bin:$PATH GOROOT=$goroot GOENV=off GOTOOLCHAIN=local GO111MODULE=off \
	GOPROXY=off GOSUMDB=off GOFLAGS= GOWORK=off CGO_ENABLED=0 GOTELEMETRY=off \
	GOCACHE=$here/.gocache GOPATH=$work/gopath:$here/go:$repo/lib/go HOME=$work TMPDIR=$work
mkdir -p "$work/gopath/src/simple" "$here/evidence" "$here/replay"
for f in "$repo"/tests/generation/golden/gen-go/simple/*.go; do
	case $f in *_test.go) ;; *) ln -s "$f" "$work/gopath/src/simple/" ;; esac
done
cd "$work" || exit 2
export VERIF_WORK=$work VERIF_HERE=$here VERIF_REPO=$repo
fail() {
	echo "cannot build the checker for $prop against $repo:" >&2
	tail -40 "$work/build.log" >&2
	exit 2
}
case $prop in
C20 | C21 | C22 | C31)
	# the library, instrumented for the controlled scheduler
	cmd=sc
	mkdir -p "$work/inst/src"
	{ go build -o "$work/instr" instr &&
		"$work/instr" "$repo/lib/go/src/thrift" "$work/inst/src/thrift" "$work/inst/src/sites"; } >"$work/build.log" 2>&1 || fail
	export GOPATH=$work/inst:$GOPATH
	# the build with the race detector needs a C compiler; without one, its
	# schedules are left out
	if CGO_ENABLED=1 go build -race -o "$work/checker-race" $cmd >"$work/race.log" 2>&1; then
		export VERIF_RACE_BIN=$work/checker-race
	else
		echo "no race detector: $(tail -1 "$work/race.log")" >&2
	fi
	;;
C29 | C30)
	# the compiler's Go generator, the code it makes, and a build that links it
	cmd=gen
	gensrc=$repo/compiler/cpp/src/generate/t_go_generator.cc
	go build -o "$work/gen" gen >"$work/build.log" 2>&1 || fail
	(cd "$here/cpp" && g++ -O1 -w -I. -o "$work/gendriver" driver.cc "$gensrc") >"$work/build.log" 2>&1 || fail
	"$work/gen" prepare "$repo" "$tier" "$prop" >"$work/build.log" 2>&1 || fail
	export GOPATH=$work/gopath:$GOPATH VERIF_WORKER_EXE=$work/checker
	go build -gcflags='-N -l' -o "$work/checker" gen >"$work/build.log" 2>&1 || fail
	;;
*) cmd=mc ;;
esac
run=$work/checker
if [ $cmd = gen ]; then
	run=$work/gen
else
	go build -o "$work/checker" $cmd >"$work/build.log" 2>&1 || fail
fi
"$run" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -repo "$repo" \
	-evidence "$here/evidence/$prop.json" -replaydir "$here/replay" \
	-known "$here/known_findings.txt" ${only[@]+"${only[@]}"}
exit $?
