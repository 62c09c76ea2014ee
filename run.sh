#!/bin/bash
# run.sh check ID        the check of a property (tier from VERIF_TIER)
# run.sh replay FILE     re-executes a replay file: exit 1 if it still fails
# run.sh setup           builds everything once
# run.sh determinism     shows that a seed decides everything
# run.sh oracle          compares the reference reader with golang/protobuf
cd /verif || exit 2
. ./build.sh
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export VERIF_GENONE=$OUT/zsim VERIF_PLUGIN=$OUT/plugin-sim VERIF_PLUGIN_TEXT=$OUT/plugin-sim-text VERIF_REF=$OUT/zref
GCENV='GODEBUG=clobberfree=1:asyncpreemptoff=1'

MIX=12 # drawn families next to the shipped types
tt() { if [ "$VERIF_TIER" = thorough ]; then echo $2; else echo $1; fi; }

zcheck() { # id quick-runs thorough-runs quick-seconds thorough-seconds extra...
  local id=$1 runs=$(tt $2 $3) secs=${VERIF_SECONDS:-$(tt $4 $5)}; shift 5
  "${BIN:-$OUT/zsim}" check -prop $id -runs $runs -seconds $secs -evidence evidence/$id.json -replays replays -sites $OUT/main/sites.json "$@"
}

check_evo() {
  local n=$(tt 36 240) msg
  build_main; build_evo $VERIF_SEED 0 $n
  if [ -z "$EVO_BROKEN" ]; then
    build_32
    BIN=$OUT/zevo zcheck C12 400000 20000000 50 700 -alt "$ALT"
    return
  fi
  msg=$EVO_BROKEN
  for ((i = 0; i < n; i++)); do # the first family that shows it
    build_evo $VERIF_SEED $i 1
    if [ -n "$EVO_BROKEN" ]; then break; fi
  done
  "$OUT/zsim" broken -prop C12 -evoseed $VERIF_SEED -fam $((i % n)) -msg "${EVO_BROKEN:-$msg}" -evidence evidence/C12.json -replays replays
}

check() {
  case $1 in
  C01) build_mix; build_32; zcheck C01 400000 12000000 50 700 -alt "$ALT" ;;
  C02) build_mix; build_32; zcheck C02 400000 16000000 50 700 -alt "$ALT" ;;
  C03) build_mix; build_32; zcheck C03 200000 12000000 50 700 -alt "$ALT" ;;
  C04) build_mix; build_32; zcheck C04 100000 8000000 60 700 -alt "$ALT" ;;
  C05) build_mix race; zcheck C05 60000 5000000 60 700 -race "$RACE" -race-runs $(tt 16000 400000) -race-procs $(tt 32 320) ;;
  C06) build_mix race; zcheck C06 100000 6000000 55 700 -race "$RACE" -race-runs $(tt 24000 400000) -race-procs $(tt 32 320) ;;
  C07) build_mix; build_32; zcheck C07 100000 6000000 60 700 -alt "$ALT" ;;
  C08) build_mix; build_32; zcheck C08 200000 12000000 50 700 -alt "$ALT" ;;
  C09) build_mix; build_32; zcheck C09 40000 3000000 60 700 -alt "$ALT" ;;
  C10) build_mix plain; zcheck C10 1500000 30000000 50 700 -sites "" ;;
  C11) build_mix; zcheck C11 100000 8000000 55 700 -env "$GCENV" ;;
  C12) check_evo ;;
  C13) build_main; build_plugin; zcheck C13 100000 4000000 50 700 ;;
  C14) build_main; zcheck C14 2000000 100000000 30 400 ;;
  C15) build_main; build_race; build_plugin; zcheck C15 40000 3000000 55 700 -race "$OUT/zsim-race" -race-runs $(tt 3000 80000) -race-procs $(tt 32 320) ;;
  C17) build_main; build_plugin text; zcheck C17 100000 4000000 40 500 ;;
  C18) build_mix; build_32; zcheck C18 100000 8000000 50 700 -alt "$ALT" ;;
  C19) build_mix; build_32; zcheck C19 200000 12000000 50 700 -alt "$ALT" ;;
  C20) build_mix; build_32; zcheck C20 200000 12000000 45 600 -alt "$ALT" ;;
  C21) build_mix; zcheck C21 40000 3000000 45 600 ;;
  *) fail "no check for $1" ;;
  esac
}

num() { sed -n "s/^ *\"$1\": \"*\([0-9]*\).*/\1/p" "$2" | head -1; }

replay() {
  local f=$1 id=$(sed -n 's/^ *"prop": "\(.*\)",*/\1/p' "$1" | head -1) bin=$OUT/zsim
  build_main
  if [ $id = C10 ]; then build_plain; bin=$OUT/zsim-plain; fi
  if [ -n "$(num evoseed "$f")" ]; then
    if [ $id = C10 ]; then
      build_evo $(num evoseed "$f") $(num evofirst "$f") $(num evon "$f") plain; bin=$OUT/zevo-plain
    else
      build_evo $(num evoseed "$f") $(num evofirst "$f") $(num evon "$f"); bin=$OUT/zevo
    fi
    if [ $id != C12 ] && [ -n "$EVO_BROKEN" ]; then fail "$EVO_BROKEN"; fi
  fi
  if [ "$(num race "$f")" = 1 ]; then
    if [ $bin = $OUT/zevo ]; then build_race_evo; bin=$OUT/zevo-race; else build_race; bin=$OUT/zsim-race; fi
    export GORACE="halt_on_error=1 exitcode=66 history_size=3" GOMAXPROCS=1
  fi
  if [ -n "$(num wordsize "$f")" ]; then
    [ $bin = $OUT/zevo ] || EVO_BROKEN=none
    build_32; [ -n "$ALT" ] || fail "needs 32-bit programs"
    bin=$ALT; EVO_BROKEN=
  fi
  case $id in
  C11) export GODEBUG=${GCENV#GODEBUG=}; GODEBUG=${GODEBUG//:/,} ;;
  C12)
    if [ -n "$EVO_BROKEN" ]; then echo "$EVO_BROKEN"; echo "VIOLATION property=C12 replay=$f"; return 1; fi
    if [ "$(num build "$f")" = 1 ]; then echo "no violation"; return 0; fi ;;
  C13 | C15) build_plugin ;;
  C17) build_plugin text ;;
  esac
  "$bin" replay "$f" -v
  local rc=$?
  if [ $rc = 66 ]; then echo "VIOLATION property=$id replay=$f"; rc=1; fi
  return $rc
}

# Every run twice, in batches of different sizes: the event hashes, the number
# of simulated steps and the verdicts must be the same.
determinism() {
  local id bin n rc=0 a b
  build_main; build_plain; build_evo 1 0 8 plain; build_evo 1 0 8; build_race_evo; build_32; build_plugin; build_plugin text
  [ -z "$EVO_BROKEN" ] || fail "$EVO_BROKEN"
  for id in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C17 C18 C19 C20 C21; do
    bin=$OUT/zevo; n=300
    case $id in C10) bin=$OUT/zevo-plain ;; C13 | C14 | C17) bin=$OUT/zsim ;; C15) n=60; bin=$OUT/zsim ;; C11) n=60 ;; esac
    a=$("$bin" hashes -prop $id -base 1 -from 0 -to $n)
    b=$(for ((i = 0; i < n; i += 20)); do GOGC=50 GOMAXPROCS=2 "$bin" hashes -prop $id -base 1 -from $i -to $((i + 20)); done)
    if [ -n "$a" ] && [ "$a" = "$b" ]; then echo "$id: $n runs repeat exactly"; else echo "$id: NOT REPEATABLE"; rc=1; fi
    case $id in C10 | C11 | C13 | C14 | C15 | C17 | C21) ;; *)
      if [ -n "$ALT" ]; then
        b=$("$ALT" hashes -prop $id -base 1 -from 0 -to $n)
        if [ "$a" = "$b" ]; then echo "$id: the 32-bit build takes the same steps"; else echo "$id: the 32-bit build DIFFERS"; rc=1; fi
      fi ;;
    esac
    case $id in C05 | C06)
      a=$("$bin" hashes -prop $id -base 1 -from 0 -to 60)
      b=$(GOMAXPROCS=1 "$OUT/zevo-race" hashes -prop $id -base 1 -from 0 -to 60)
      if [ "$a" = "$b" ]; then echo "$id: the race-detector build follows the same schedules"; else echo "$id: the race-detector build DIFFERS"; rc=1; fi ;;
    esac
  done
  return $rc
}

case $1 in
check) check "$2" ;;
replay) replay "$2" ;;
setup) build_main && build_plain ;;
determinism) determinism ;;
oracle) (cd $SIM && go run ./cmd/oracle) ;;
*) fail "usage: run.sh check ID | replay FILE | setup | determinism | oracle" ;;
esac
