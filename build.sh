# Sourced by run.sh. Functions that build the simulator in its variants from
# /repo's current working tree. Nothing is written to /repo.
export HOME=${HOME:-/root}
if [ -d /opt/veriftools/go1.27.3/bin ]; then export PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GO111MODULE=on GONOSUMDB=* GOFLAGS
export CGO_ENABLED=0
REPO=/repo
SIM=/verif/sim
OUT=${VERIF_BUILD:-/verif/.build}
Z=github.com/danhhz/zeropb
fail() { echo "check error: $*" >&2; exit 2; }

# instrument NAME [-merge overlay] pkgs...: writes $OUT/NAME/overlay.json
instrument() {
  local name=$1; shift
  mkdir -p "$OUT/$name" || fail "mkdir"
  (cd $SIM && go build -o "$OUT/instr" ./cmd/instr) || fail "building the instrumenter"
  (cd $SIM && "$OUT/instr" -out "$OUT/$name" -overlay "$OUT/$name/overlay.json" "$@") || fail "instrumenting /repo"
}

# pick_tags: should the runtime not have the functions that dynamic types are
# made of, do without those.
pick_tags() {
  export GOFLAGS=-mod=readonly
  (cd $SIM && go build ./core) 2> /dev/null && return
  (cd $SIM && go build -tags nodyn ./core) 2> /dev/null || return
  GOFLAGS="-mod=readonly -tags=nodyn"
  echo "note: the runtime has other functions: without dynamic types"
}

# build_main: the simulator with the code under test instrumented. Should the
# instrumented copies not compile, with less instrumentation.
build_main() {
  local level pkgs
  pick_tags
  pkgs=$(cd $SIM && go list -deps ./cmd/zsim 2> /dev/null | grep "^$Z\(/\|\$\)")
  [ -n "$pkgs" ] || pkgs="$Z $Z/generate $Z/golden/raftzeropb $Z/golden/testzeropb"
  for level in 2 1 0; do
    instrument main -level $level $pkgs
    (cd $SIM && go build -overlay "$OUT/main/overlay.json" -o "$OUT/zsim" ./cmd/zsim) 2> "$OUT/main/build.log" && return
    (cd $SIM && go build -o /dev/null ./cmd/zsim) || fail "building the simulator"
    echo "note: the code at instrumentation level $level doesn't compile: $(head -c 300 "$OUT/main/build.log")"
  done
  fail "building the instrumented simulator"
}

build_race() {
  (cd $SIM && CGO_ENABLED=1 go build -race -overlay "$OUT/main/overlay.json" -o "$OUT/zsim-race" ./cmd/zsim) || fail "building the race simulator"
}

build_plain() {
  mkdir -p "$OUT"
  (cd $SIM && go build -o "$OUT/zsim-plain" ./cmd/zsim) || fail "building the plain simulator"
}

# build_evo SEED FIRST N [plain]: runs the generator under test on families of schema
# versions and links what it writes into zevo (zevo-plain: without
# instrumentation). Sets EVO_BROKEN to a message, instead of failing, when the
# generator fails on them or what it generates does not compile.
build_evo() {
  EVO_BROKEN=
  local sfx=${4:+-plain} merge=$OUT/main/overlay.json
  if [ -n "$4" ]; then merge=; fi
  (cd $REPO && go build -o "$OUT/protoc-gen-zeropb" ./cmd/protoc-gen-zeropb) || fail "building the plugin"
  (cd $SIM && go build -o "$OUT/mkevo" ./cmd/mkevo) || fail "building mkevo"
  local msg rc
  msg=$("$OUT/mkevo" -plugin "$OUT/protoc-gen-zeropb" -seed $1 -first $2 -n $3 -dir "$OUT/evo$sfx" -merge "$merge" -sim $SIM 2>&1); rc=$?
  if [ $rc = 1 ]; then EVO_BROKEN="the generator failed: $msg"; return; fi
  [ $rc = 0 ] || fail "mkevo: $msg"
  msg=$(cd $SIM && go build -overlay "$OUT/evo$sfx/overlay.json" -o "$OUT/zevo$sfx" ./cmd/zevo 2>&1) && return
  (cd $SIM && go build -o /dev/null ./cmd/zsim) || fail "building the simulator"
  EVO_BROKEN="generated code does not compile: $(echo "$msg" | head -c 1500)"
}

# build_race_evo: what build_evo prepared, for the race detector.
build_race_evo() {
  (cd $SIM && CGO_ENABLED=1 go build -race -overlay "$OUT/evo/overlay.json" -o "$OUT/zevo-race" ./cmd/zevo) || fail "building the race simulator"
}

# build_mix [race|plain]: the simulator in $BIN (and $RACE) with, where the generator
# works, the types of a few drawn families next to the shipped ones. C12 is
# about the case where it does not.
build_mix() {
  RACE=$OUT/zsim-race
  if [ "$1" = plain ]; then
    pick_tags
    build_evo $VERIF_SEED 0 $MIX plain; BIN=$OUT/zevo-plain
  else
    build_main; build_evo $VERIF_SEED 0 $MIX; BIN=$OUT/zevo
  fi
  if [ -z "$EVO_BROKEN" ]; then
    if [ "$1" = race ]; then build_race_evo; RACE=$OUT/zevo-race; fi
    return
  fi
  echo "note: without drawn types: $(echo "$EVO_BROKEN" | head -c 300)"
  BIN=$OUT/zsim
  if [ "$1" = race ]; then build_race; fi
  if [ "$1" = plain ]; then build_plain; BIN=$OUT/zsim-plain; fi
}

# build_32: what build_mix or build_evo prepared, for a 32-bit machine. Sets ALT,
# unless such programs don't run here.
build_32() {
  ALT=
  local o=$OUT/main/overlay.json cmd=zsim
  if [ -z "$EVO_BROKEN" ]; then o=$OUT/evo/overlay.json cmd=zevo; fi
  (cd $SIM && GOARCH=386 go build -overlay "$o" -o "$OUT/zsim-386" ./cmd/$cmd) > "$OUT/main/build386.log" 2>&1 ||
    { (cd $SIM && GOARCH=386 go build -o /dev/null ./cmd/zsim) && fail "building the simulator for 32 bits"
      echo "note: the code doesn't compile for 32 bits: $(head -c 300 "$OUT/main/build386.log")"; return; }
  "$OUT/zsim-386" hashes -prop C01 -from 0 -to 0 > /dev/null 2>&1 || { echo "note: 32-bit programs don't run here"; return; }
  ALT=$OUT/zsim-386
}

# build_plugin [text]: a plugin with system calls on its standard descriptors behind
# a simulated kernel.
build_plugin() {
  local cmd=protoc-gen-${1:-zeropb} src=$(go env GOROOT)/src/syscall/syscall_unix.go d=$OUT/plugin-${1:-zeropb}
  mkdir -p "$d" || fail mkdir
  sed -e 's/^func Read(fd int, p \[\]byte) (n int, err error) {/&\n\tif VerifSimRead != nil \&\& uint(fd) <= 2 {\n\t\treturn VerifSimRead(fd, p)\n\t}/' \
      -e 's/^func Write(fd int, p \[\]byte) (n int, err error) {/&\n\tif VerifSimWrite != nil \&\& uint(fd) <= 2 {\n\t\treturn VerifSimWrite(fd, p)\n\t}/' "$src" > "$d/syscall_unix.go"
  [ $(grep -c 'return VerifSim' "$d/syscall_unix.go") = 2 ] || fail "the standard library's syscall package looks different"
  printf '\n// Hooks of the simulated kernel.\nvar VerifSimRead, VerifSimWrite func(fd int, p []byte) (int, error)\n' >> "$d/syscall_unix.go"
  local tsrc=$(go env GOROOT)/src/time/time.go
  sed -e 's/^func Now() Time {/&\n\treturn verifSimNow().Add(Duration(VerifSimSkew) * Second)\n}\n\nfunc verifSimNow() Time {/' "$tsrc" > "$d/time.go"
  [ $(grep -c verifSimNow "$d/time.go") = 2 ] || fail "the standard library's time package looks different"
  printf '\n// Clock skew of the simulation.\nvar VerifSimSkew int64\n' >> "$d/time.go"
  local ssrc=$(go env GOROOT)/src/time/sleep.go
  sed -e 's/^\tt := newTimer(when(d), 0, sendTime.*/&\n\tverifSimTimer(t, d)/' \
      -e 's/^\treturn newTimer(when(d), 0, goFunc, f, nil)/\tt := newTimer(when(d), 0, goFunc, f, nil)\n\tverifSimTimer(t, d)\n\treturn t/' \
      -e 's/^\treturn stopTimer(t)/\tverifSimTimer(t, -1)\n&/' \
      -e 's/^\treturn resetTimer(t, w, 0)/\tverifSimTimer(t, d)\n&/' "$ssrc" > "$d/sleep.go"
  [ $(grep -c verifSimTimer "$d/sleep.go") = 4 ] || fail "the standard library's timers look different"
  cat $SIM/plugsim/timers.go.txt >> "$d/sleep.go"
  local esrc=$(go env GOROOT)/src/syscall/env_unix.go
  sed -e 's/^func Getenv(key string) (value string, found bool) {/func Getenv(key string) (value string, found bool) {\n\tvalue, found = verifSimGetenv(key)\n\tif !found \&\& VerifSimGetenv != nil {\n\t\treturn VerifSimGetenv(key)\n\t}\n\treturn value, found\n}\n\n\/\/ Hook of the simulated environment.\nvar VerifSimGetenv func(key string) (string, bool)\n\nfunc verifSimGetenv(key string) (value string, found bool) {/' "$esrc" > "$d/env_unix.go"
  [ $(grep -c 'func verifSimGetenv' "$d/env_unix.go") = 1 ] || fail "the standard library's environment looks different"
  # Who and where the process is, which files there are. Only this architecture
  # is catered for; elsewhere these two go without.
  local zsrc=$(go env GOROOT)/src/syscall/zsyscall_linux_amd64.go lsrc=$(go env GOROOT)/src/syscall/syscall_linux.go
  sed -e 's/^func Uname(buf \*Utsname) (err error) {/&\n\tif VerifSimHost != "" {\n\t\tfor i := 0; i < len(VerifSimHost); i++ {\n\t\t\tbuf.Nodename[i] = int8(VerifSimHost[i])\n\t\t}\n\t\treturn nil\n\t}/' \
      -e 's/^func Gete\?[ug]id() (e\?[ug]id int) {/&\n\tif VerifSimId != 0 {\n\t\treturn VerifSimId\n\t}/' "$zsrc" > "$d/zsyscall_linux_amd64.go"
  [ $(grep -c VerifSim "$d/zsyscall_linux_amd64.go") = 11 ] || fail "the standard library's system calls look different"
  printf '\n// Identity in the simulation.\nvar (\n\tVerifSimHost string\n\tVerifSimId int\n)\n' >> "$d/zsyscall_linux_amd64.go"
  sed -e 's/^func Open(path string, mode int, perm uint32) (fd int, err error) {/&\n\tif VerifSimFile != "" {\n\t\tif fd, err = openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm); err == ENOENT {\n\t\t\tpath = VerifSimFile\n\t\t} else {\n\t\t\treturn fd, err\n\t\t}\n\t}/' "$lsrc" > "$d/syscall_linux.go"
  [ $(grep -c VerifSim "$d/syscall_linux.go") = 2 ] || fail "the standard library's system calls look different"
  printf '\n// What there is where there is nothing.\nvar VerifSimFile string\n' >> "$d/syscall_linux.go"
  cp $SIM/plugsim/zz_verif_sim.go.txt "$d/zz_verif_sim.go"
  printf '{"Replace":{"%s":"%s","%s":"%s","%s":"%s","%s":"%s","%s":"%s","%s":"%s","%s":"%s"}}\n' "$ssrc" "$d/sleep.go" "$zsrc" "$d/zsyscall_linux_amd64.go" "$lsrc" "$d/syscall_linux.go" "$esrc" "$d/env_unix.go" "$tsrc" "$d/time.go" "$src" "$d/syscall_unix.go" $REPO/cmd/$cmd/zz_verif_sim.go "$d/zz_verif_sim.go" > "$d/overlay.json"
  (cd $REPO && go build -overlay "$d/overlay.json" -o "$OUT/plugin-sim${1:+-$1}" ./cmd/$cmd) || fail "building the simulated plugin"
  [ "$1" != text ] || (cd $SIM && go build -o "$OUT/zref" ./cmd/zref) || fail "building the reference"
}
