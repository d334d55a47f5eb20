#!/bin/bash
# check.sh <property> [--thorough] [--replay N]: builds the explorer against /repo's current tree and runs one property.
# --thorough (or VERIF_TIER=thorough) deepens the exploration.
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
id="$1"; shift
extra=()
if [ "$1" = "--thorough" ]; then export VERIF_TIER=thorough; shift; fi
if [ "$1" = "--replay" ]; then extra=("replay=$2"); fi
feat=(--features world) prof=mc bindir=world
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
case "$id" in
  C13|C15|C16|C17|C22) feat=(--features scenes) bindir=scenes;;
  C26|C27|C28) feat=(--features more) bindir=more;;
  C18|C20) feat=(--features wrapped) bindir=wrapped;;
  C23) feat=(--features macros)   prof=mcv bindir=macros;;
  C14) feat=(--features values)   prof=mcv bindir=values;;
  C25) feat=(--features withglam) prof=mcv bindir=glam;;
esac
# See the profiles in harness/Cargo.toml.
[ $prof = mc ] && export RUSTFLAGS="-C passes=default<O2>"
log="$PWD/target/build-$id.log"; mkdir -p "$PWD/target"
( flock 9
  if [ "$id" = C23 ]; then mkdir -p target/gen; python3 tools/gen_macros.py "${VERIF_TIER:-quick}" target/gen/macros.rs >/dev/null || exit 1; fi
  cargo build --offline --quiet --manifest-path harness/Cargo.toml --profile $prof "${feat[@]}" >"$log" 2>&1 || exit 1
  mkdir -p "target/bin-$bindir" && cp -f target/$prof/mc "target/bin-$bindir/mc.$$" ) 9>target/.lock
if [ ! -x "target/bin-$bindir/mc.$$" ]; then
  # A program over the documented grammar that no longer compiles is a violation of what the macros promise.
  if [ "$id" = C23 ] && grep -A4 "^error" "$log" | grep -q -- "--> .*target/gen/macros.rs:"; then
    mkdir -p replays evidence
    { echo "programs that do not compile:"; grep -A14 "^error" "$log" | grep -v "^warning" | head -n 80
      for n in $(grep -A4 "^error" "$log" | sed -n 's/.*--> .*gen\/macros.rs:\([0-9]*\):.*/\1/p' | sort -nu | head -n 5); do echo; echo "line $n:"; sed -n "${n}p" target/gen/macros.rs; done; } >replays/C23.txt
    head -n 30 replays/C23.txt | cut -c1-300
    echo "VIOLATION property=C23 replay=$PWD/replays/C23.txt"; exit 1
  fi
  echo "the explorer does not build:"; grep -A12 "^error" "$log" | tail -n 60; exit 2
fi
"target/bin-$bindir/mc.$$" drive "$id" "$PWD" "${extra[@]}"
code=$?
rm -f "$PWD/target/bin-$bindir/mc.$$"
exit $code
