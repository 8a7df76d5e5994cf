#!/bin/bash
# replay.sh FILE: runs the counterexample in FILE (as written by check.py) natively against /repo.
# Exit 0: the case behaves; anything else: it fails. Memory errors may need ASAN=1, races THREADS=1
# with a detector (the file says how the check saw it).
set -u
F=$(realpath "$1")
FEATURES=$(sed -n 's/^# features //p' "$F"); CFG=$(sed -n 's/^# cfg //p' "$F")
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_BOOTSTRAP=1 CARGO_TERM_COLOR=never
DIR=/verif/build/replay; FLAGS="--cap-lints=allow $CFG"; BIN=$DIR/release/replay; TGT=""
if [ "${ASAN:-0}" = 1 ]; then
	DIR=$DIR-asan; FLAGS="$FLAGS -Zsanitizer=address"; TGT="--target x86_64-unknown-linux-gnu"
	BIN=$DIR/x86_64-unknown-linux-gnu/release/replay; export ASAN_OPTIONS=detect_leaks=0
fi
cd "$(dirname "$0")/harness" || exit 2
touch /repo/src/lib.rs
RUSTFLAGS="$FLAGS" cargo build --release --offline -q --target-dir "$DIR" $TGT --no-default-features --features "$FEATURES" || exit 2
[ "${THREADS:-0}" = 1 ] && export VERIF_REPLAY_THREADS=1
OUT=$(grep '^case ' "$F" | timeout 120 ${WRAP:-} "$BIN"); RC=$?
echo "$OUT"
[ $RC = 0 ] && echo "$OUT" | grep -q '^result v ok' && exit 0
exit 1
