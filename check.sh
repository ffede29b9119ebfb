#!/bin/bash
# usage: check.sh <property> ... : builds the simulator against /repo's working tree and runs one check.
#        check.sh replay <file>  : builds everything and replays a violation.
#        check.sh build          : builds the simulator only.
ROOT="$(cd "$(dirname "$0")" && pwd)" || exit 3
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
[ -d /root/.cargo/bin ] && export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
LOG=$(mktemp -d /tmp/midi2-sim-build.XXXXXX) || exit 3
two=no
case "$1" in C20|replay) two=yes ;; esac
FAMILIES="flex-data channel-voice1 channel-voice2 sysex7 sysex8 system-common ump-stream utility"
others() {
  # the other builds of the library: without std, and with one message family each
  (cd "$ROOT/replica" && cargo build --release --offline) || return 1
  mkdir -p "$ROOT/families/target/built" || return 1
  cd "$ROOT/families" || return 1
  for f in $FAMILIES; do
    cargo build --release --offline --features $f --target-dir target/all || return 1
    cp target/all/release/libmidi2_family.so target/built/$f.new && mv target/built/$f.new target/built/$f.so || return 1
  done
}
if [ $two = yes ]; then others >"$LOG/others" 2>&1 & rep=$!; fi
(cd "$ROOT/sim" && cargo build --release --offline >"$LOG/sim" 2>&1)
built=$?
if [ $two = yes ] && ! wait $rep && [ $built = 0 ]; then
  if grep -q 'could not compile `midi2`' "$LOG/others"; then
    # the crate builds with everything on and not with less: reported with the compiler's output
    mkdir -p "$ROOT/replays"
    R="$ROOT/replays/C20-build.replay"
    { echo "property=C20"; echo "class=does not build with std or a family left out"; cat "$LOG/others"; } >"$R"
    grep -E '^error' -A6 "$LOG/others" | head -40
    echo "VIOLATION property=C20 replay=$R"
    rm -rf "$LOG"
    exit 1
  fi
  built=1
  mv "$LOG/others" "$LOG/sim"
fi
if [ $built != 0 ]; then
  grep -E '^error' -A12 "$LOG/sim" | head -80
  echo "the simulator does not build against this tree"
  rm -rf "$LOG"
  exit 3
fi
rm -rf "$LOG"
cd "$ROOT/sim" || exit 3
case "$1" in
  build) exit 0 ;;
  replay) exec ./target/release/midi2-sim "$@" ;;
  *) exec ./target/release/midi2-sim check "$@" ;;
esac
