#!/bin/bash
# check.sh ID: rebuilds what the check needs from /repo's working tree, in a scratch
# directory, and runs it. Exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
ID=$1
HERE=$(cd "$(dirname "$0")" && pwd)
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
W=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
trap 'exit 2' INT TERM
export GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOWORK=off
unset GORACE GOMAXPROCS GODEBUG
fail() { echo "check $ID: cannot build: $1"; cat "$W/build.log"; exit 2; }
build() { (cd "$1" && go build $4 -o "$W/$2" "$3") >"$W/build.log" 2>&1; }
case $ID in
C0?|C1?|C20|C21)
    build /repo simplify . "" || fail "the program"
    build "$HERE/harness" clicheck ./cmd/clicheck "" || fail "the harness"
    set -- -id "$ID" -bin "$W/simplify"
    if [ "$ID" = C17 ]; then
        build /repo simplify_race . -race || fail "the program with -race"
        set -- "$@" -race "$W/simplify_race"
        # a tree whose library interface changed is still checked through the program
        build "$HERE/harness" racelib ./cmd/racelib -race && set -- "$@" -racelib "$W/racelib"
    fi
    mkdir "$W/run"
    "$W/clicheck" "$@" -home "$HERE" -dir "$W/run" -seed "$SEED" -tier "$TIER"
    ;;
*)
    id=$(echo "$ID" | tr 'C' 'c')
    [ -d "$HERE/harness/cmd/$id" ] || { echo "unknown property $ID"; exit 2; }
    race=
    grep -qs race "$HERE/harness/cmd/$id/BUILD" && race=-race
    build "$HERE/harness" "$id" "./cmd/$id" $race || fail "the harness"
    mkdir "$W/run"
    "$W/$id" -home "$HERE" -dir "$W/run" -seed "$SEED" -tier "$TIER" 2>"$W/err"
    rc=$?
    head -c 20000 "$W/err" >&2
    # the library took the process down: a panic in one of its goroutines, a stack without end
    if [ $rc -gt 1 ] && grep -qE '^(panic|fatal error):' "$W/err" && grep -q 'github.com/TopoSimplify/plugin/' "$W/err"; then
        mkdir -p "$HERE/evidence/replay"
        head -c 20000 "$W/err" >"$HERE/evidence/replay/$ID-crash.txt"
        echo "VIOLATION property=$ID replay=$HERE/evidence/replay/$ID-crash.txt"
        exit 1
    fi
    exit $rc
    ;;
esac
