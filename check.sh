#!/bin/bash
# check.sh PROP [quick|thorough]     decide one property
# check.sh replay FILE               replay a recorded violation
# check.sh build DIR                 build the simulator from /repo's working tree into DIR
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${SIM_REPO:-/repo}
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=readonly GOWORK=off GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1
export GOCACHE=${SIM_GOCACHE:-/root/.cache/go-build-sim}

die() { echo "ERROR $*" >&2; exit 2; }

build() { # DIR
  local dir=$1
  mkdir -p "$dir/ov" || die "no scratch directory"
  (cd "$VERIF/sim" && go build -o "$dir/prep" ./cmd/prep) || die "building prep failed"
  local mod
  mod=$("$dir/prep" -repo "$REPO" -out "$dir/ov" -src "$VERIF/sim/overlay") || die "instrumenting failed"
  (cd "$REPO" && go build -overlay "$dir/ov/overlay.json" -trimpath -o "$dir/simplain" "$mod/zzverif/simrun") || die "building the simulator failed"
  case " $2 " in *" race "*)
    (cd "$REPO" && go build -race -overlay "$dir/ov/overlay.json" -trimpath -o "$dir/simrace" "$mod/zzverif/simrun") || die "building the race simulator failed";;
  esac
  case " $2 " in *" asan "*)
    (cd "$REPO" && go build -asan -overlay "$dir/ov/overlay.json" -trimpath -o "$dir/simasan" "$mod/zzverif/simrun") || die "building the asan simulator failed";;
  esac
}

case "${1:-}" in
  build) build "$2" "race asan"; exit 0;;
  setup) d=$(mktemp -d /tmp/sim.XXXXXXXX) && build "$d" "race asan" && rm -rf "$d" && echo ok; exit 0;;
  "") die "usage: check.sh PROP [quick|thorough] | replay FILE | build DIR";;
esac

SCRATCH=$(mktemp -d /tmp/sim.XXXXXXXX) || die "no scratch directory"
trap 'case "$SCRATCH" in /tmp/sim.*) rm -rf "$SCRATCH";; esac' EXIT

if [ "$1" = replay ]; then
  build "$SCRATCH" "race asan"
  b=simplain
  grep -q '"binary": "race"' "$2" && b=simrace
  grep -q '"binary": "asan"' "$2" && b=simasan
  SIM_ORACLE="$SCRATCH/simplain" SIM_DIR="$SCRATCH" SIM_RACELOG="$SCRATCH/race" GOMAXPROCS=1 GOGC=off GOMEMLIMIT=2500MiB GODEBUG=clobberfree=1 TZ=UTC MALLOC_ARENA_MAX=1 \
    GORACE="log_path=$SCRATCH/race halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0" ASAN_OPTIONS=detect_leaks=0 \
    "$SCRATCH/$b" replay "$2"
  exit $?
fi

PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
kinds=""
case $PROP in C01|C02|C12|C13) kinds="race";; C14) kinds="asan";; esac
build "$SCRATCH" "$kinds"
# seeds and wall limit (s) per tier
declare -A QS=([C01]=1000 [C02]=1200 [C03]=5000 [C04]=9000 [C05]=10000 [C06]=2400 [C07]=40000 [C08]=9000 [C09]=14000 [C10]=2000 [C11]=20000 [C12]=4500 [C13]=5000 [C14]=50000 [C15]=22000 [C16]=5000 [C17]=12000 [C18]=400)
if [ "$TIER" = thorough ]; then n=$((QS[$PROP] * 100)); secs=${SIM_SECS:-780}; else n=${QS[$PROP]}; secs=${SIM_SECS:-150}; fi
[ -n "${SIM_SEEDS:-}" ] && n=$SIM_SEEDS
"$SCRATCH/simplain" drive -prop="$PROP" -tier="$TIER" -seed="$SEED" -seeds="$n" -secs="$secs" -dir="$SCRATCH" -verif="$VERIF" \
  -plain="$SCRATCH/simplain" -race="$SCRATCH/simrace" -asan="$SCRATCH/simasan" -chunk="${SIM_CHUNK:-20}" -workers="${SIM_WORKERS:-8}"
exit $?
