#!/bin/bash
# check.sh <property id> [tier]: builds the checker of that property from /repo's working tree and runs it.
# exit 0 held, 1 VIOLATION, 2 the check itself could not be built or run.
set -u
ID="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
ROOT="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
WORK="$(mktemp -d /tmp/zkcheck.XXXXXX)" || exit 2
trap 'rm -rf "$WORK"' EXIT
export ZKMC_WORK="$WORK"
mkdir -p "$ROOT/evidence" "$ROOT/replays"
rm -f "$ROOT/evidence/$ID.json" "$ROOT/replays/$ID"-*.json
cd "$ROOT/mc" || exit 2
OV=()
case "$ID" in
C24|C47)
  # an instrumented build (scheduling points before every statement) and a race-detecting build
  mkdir "$WORK/ov"
  if go run ./cmd/instrument /repo "$WORK/ov" >"$WORK/ov.log" 2>&1 &&
    go build -overlay "$WORK/ov/overlay.json" -o /dev/null ./cmd/zkcheck >"$WORK/ov.log" 2>&1; then
    OV=(-overlay "$WORK/ov/overlay.json")
  else
    head -5 "$WORK/ov.log"
  fi
  CGO_ENABLED=1 go build -race -o "$WORK/zkcheck-race" ./cmd/zkcheck >"$WORK/race.log" 2>&1 || head -5 "$WORK/race.log"
  ;;
C29|C30|C31|C32|C33|C34|C35)
  # the location stages are unexported: an overlay file in each package names them
  for l in 32 64; do
    go run ./cmd/mkoverlay loc /repo/loc2index$l "$WORK/loc$l.go" || exit 2
  done
  cat >"$WORK/overlay.json" <<JSON
{"Replace": {"/repo/loc2index32/zz_verif_export.go": "$WORK/loc32.go", "/repo/loc2index64/zz_verif_export.go": "$WORK/loc64.go"}}
JSON
  OV=(-tags loc -overlay "$WORK/overlay.json")
  ;;
esac
if ! go build ${OV[@]+"${OV[@]}"} -o "$WORK/zkcheck" ./cmd/zkcheck >"$WORK/build.log" 2>&1; then
  echo "ERROR: the checker of $ID does not build against /repo"; head -30 "$WORK/build.log"; exit 2
fi
"$WORK/zkcheck" "$ROOT" "$ID"
