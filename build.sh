#!/bin/bash
# Builds the harness from /repo's working tree. The stages of the location
# circuits are unexported and the circuit itself lives in the packages' test
# files; an overlay makes both available. If the repository has changed so that
# part of the overlay no longer compiles, the rest is still built.
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/harness/env.sh"
REPO=/repo
O="$ROOT/harness/overlay"
mkdir -p "$ROOT/.build"
cd "$ROOT/harness" || exit 3
L32=$REPO/loc2index32 L64=$REPO/loc2index64
stages="\"$L32/zz_verif_stages.go\": \"$O/loc32.go\", \"$L64/zz_verif_stages.go\": \"$O/loc64.go\""
circ="\"$L32/zz_verif_claim.go\": \"$O/circ32.go\", \"$L64/zz_verif_claim.go\": \"$O/circ64.go\",
 \"$L32/zz_verif_circuit.go\": \"$L32/loc2index32_test.go\", \"$L64/zz_verif_circuit.go\": \"$L64/loc2index64_test.go\""
echo "{\"Replace\": {$stages, $circ}}" >"$ROOT/.build/overlay-full.json"
echo "{\"Replace\": {$circ}}" >"$ROOT/.build/overlay-circ.json"
log="$ROOT/.build/build.log"
P=$REPO/proximity
# the command of package proximity, as it is and with a server for its functions
prox() {
  local files="\"$P/zz_verif_z_rpc.go\": \"$O/prox_z_rpc.go\"" level=$1
  shift
  for f; do files="$files, \"$P/zz_verif_$f.go\": \"$O/prox_$f.go\""; done
  echo "{\"Replace\": {$files}}" >"$ROOT/.build/overlay-prox.json"
  go build -overlay "$ROOT/.build/overlay-prox.json" -o "$ROOT/.build/prox" github.com/tumberger/zk-Location/proximity 2>>"$log" && echo "$level" >"$ROOT/.build/prox.level"
}
OUT="$ROOT/.build/pbt"
# C04 runs its circuits in a process with the race detector
race() {
  case "$1" in
  C04 | "") shift && go build -race "$@" -o "$ROOT/.build/pbt-race" ./cmd/pbt 2>>"$log" || rm -f "$ROOT/.build/pbt-race" ;;
  esac
  exit 0
}
rm -f "$ROOT/.build/prox.level" "$ROOT/.build/pbt-race"
: >"$log"
case "$1" in
U02 | P01 | "")
  go build -o "$ROOT/.build/proxmain" github.com/tumberger/zk-Location/proximity 2>>"$log" || { cat "$log" >&2; exit 1; }
  prox full a_num b_exec || prox num a_num || prox exec b_exec || echo none >"$ROOT/.build/prox.level"
  ;;
esac
go build -overlay "$ROOT/.build/overlay-full.json" -tags locshim,loccirc,tables -o "$OUT" ./cmd/pbt 2>>"$log" && race "$1" -overlay "$ROOT/.build/overlay-full.json" -tags locshim,loccirc,tables
go build -overlay "$ROOT/.build/overlay-circ.json" -tags loccirc,tables -o "$OUT" ./cmd/pbt 2>>"$log" && race "$1" -overlay "$ROOT/.build/overlay-circ.json" -tags loccirc,tables
go build -overlay "$ROOT/.build/overlay-circ.json" -tags loccirc -o "$OUT" ./cmd/pbt 2>>"$log" && race "$1" -overlay "$ROOT/.build/overlay-circ.json" -tags loccirc
go build -o "$OUT" ./cmd/pbt 2>>"$log" && race "$1"
cat "$log" >&2
exit 1
