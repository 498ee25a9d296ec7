#!/bin/bash
# check.sh build               build both variants from /repo's working tree
# check.sh check C01 [...]     decide a property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE         re-execute a replay file
set -u
cd "$(dirname "$0")" || exit 3
V=$PWD
export RUSTUP_TOOLCHAIN=stable RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS
export RUSTFLAGS=-Awarnings

build() {
  mkdir -p target || return 1
  (
    flock 9
    # the tree may have changed without its timestamps moving forward
    for d in target/inst/debug target/plain/release; do
      for f in "$V/$d"/.fingerprint/dumb-crypto-*; do
        [ -e "$f" ] && rm -rf "$f"
      done
    done
    (
      CARGO_TARGET_DIR=$V/target/inst RUSTC_WRAPPER=$V/sim/wrapper.sh \
        cargo build --offline -q --manifest-path sim/Cargo.toml
    ) &
    a=$!
    ( CARGO_TARGET_DIR=$V/target/plain cargo build --offline -q --release --manifest-path sim/Cargo.toml ) &
    b=$!
    wait $a; ra=$?
    wait $b; rb=$?
    [ $ra = 0 ] && [ $rb = 0 ]
  ) 9>target/lock
}

I=$V/target/inst/debug/dsim
P=$V/target/plain/release/dsim
case "${1:-}" in
  build) build || exit 3 ;;
  check)
    p=$2
    shift 2
    build || { echo "the harness does not build against /repo"; exit 3; }
    exec "$I" check --prop "$p" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --plain "$P" \
      --evidence "$V/evidence/$p.json" --replays "$V/replays" --known "$V/known_findings.txt" \
      --scratch "$V/target/scratch" "$@"
    ;;
  replay)
    build || exit 3
    exec "$I" replay "$2" --plain "$P"
    ;;
  *) echo "usage: check.sh build | check ID | replay FILE"; exit 3 ;;
esac
