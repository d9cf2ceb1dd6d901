#!/bin/bash
# usage: run.sh <ID> [quick|thorough] | run.sh --build | run.sh --replay <file>
# Builds the checker against /repo's current working tree, offline, and runs one check.
V=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF="$V"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cfg patriecia_mc -A warnings" CARGO_TARGET_DIR="$V/target"
build() {
  local out
  if ! out=$(cd "$V/$1" && cargo build --offline --release 2>&1); then
    echo "$out" | tail -60
    echo "building $1 against /repo failed"; exit 2
  fi
}
case "$1" in
  --build) build mc; build conc; exit 0;;
  --replay)
    B=mc; grep -Eq '"property": *"(J17|P10)"' "$2" && B=conc
    build $B; exec "$V/target/release/$B" replay "$2";;
esac
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
case "$ID" in J17|P10) B=conc;; *) B=mc;; esac
build $B
export VERIF_TIER=$TIER
exec "$V/target/release/$B" check "$ID" "$TIER"
