#!/bin/bash
# check.sh ID [quick|thorough]   run one check against /repo's current working tree
# check.sh -replay FILE          repeat the execution of a replay file
# Everything is built from a copy of /repo in a scratch directory that is removed afterwards.
verif=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
mode=check
if [ "$1" = -replay ]; then
  mode=replay; file=$(realpath "$2") || exit 3
  id=$(sed -n 's/^ "property": "\(C[0-9]*\)",$/\1/p' "$file" | head -1)
else
  id=$1
fi
tier=${2:-${VERIF_TIER:-quick}}
[ "$mode" = replay ] && tier=quick
seed=${VERIF_SEED:-1}
case $id in
  C01|C08|C09|C1[0-3]|C1[5-79]|C2[0-2]) bin=simcli ;;
  C02|C03|C05|C06|C07|C14|C18) bin=simlib ;;
  C04) bin=simlib; race=1 ;;
  *) echo "unknown property '$id'" >&2; exit 3 ;;
esac

export HOME=${HOME:-/root}
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
s=$(mktemp -d "${TMPDIR:-/tmp}/goosli-sim.XXXXXXXX") || exit 3
trap 'rm -rf -- "${s:?}"' EXIT
trap 'exit 3' INT TERM HUP
mkdir -p "$s/src" "$s/tmp" || exit 3
export TMPDIR=$s/tmp
touch "${GOCACHE:=$HOME/.cache/go-build}/.w" 2>/dev/null || { mkdir -p "$GOCACHE" && touch "$GOCACHE/.w"; } 2>/dev/null || export GOCACHE=$s/gocache
fail() { echo "$id: machinery error: $1" >&2; exit 3; }
(cd "$repo" && tar cf - --exclude=./.git .) | tar xf - -C "$s/src" || fail "copying the repository"
(cd "$verif/simgen" && go build -o "$s/simgen" .) || fail "building simgen"
"$s/simgen" -src "$s/src" -out "$s/out" -verif "$verif" || fail "translating the repository"
cd "$s/out" || fail "no output"
go build -o "$s/$bin" ./harness/$bin || fail "building the simulation"
if [ -n "$race" ]; then
  GOEXPERIMENT=nosizespecializedmalloc go build -race -gcflags='simmod/simrt/...=-race=false -l' -o "$s/${bin}race" ./harness/$bin || fail "building the race-checking simulation"
  bin=${bin}race
  export GORACE="halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=3"
fi
cd "$verif" || exit 3
if [ "$mode" = replay ]; then
  "$s/$bin" -mode replay -file "$file"
else
  "$s/$bin" -mode check -prop "$id" -tier "$tier" -seed "$seed" -verif "$verif"
fi
exit $?
