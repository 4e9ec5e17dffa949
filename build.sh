#!/bin/bash
# Builds everything the checks need from /repo's current working tree, outside /repo. usage: build.sh [--dev]
# Environment: VERIF_REPO (default /repo), VERIF_BUILD (default /verif/.build).
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= RUSTFLAGS= CARGO_ENCODED_RUSTFLAGS=
unset CARGO_ENCODED_RUSTFLAGS RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$HERE/.build}
mkdir -p "$B" || exit 2
exec 9>"$B/lock"; flock 9
LOG=$B/build.log; : > "$LOG"
fail() { echo "build failed: $1 (see $LOG)" >&2; tail -n 30 "$LOG" >&2; exit 2; }

# The whole crate with the executor's body in place of its main function, for trees whose modules do not stand alone.
alternative() {
  local n=$1 d=$2 a=$B/$1-alt
  rm -rf "$a"; mkdir -p "$a" || return 1
  cp -r "$REPO/src" "$REPO/Cargo.toml" "$a/"; cp "$REPO/Cargo.lock" "$a/" 2>/dev/null
  { sed -E 's/^(pub )?fn main *\(/\1fn c8s_main(/' "$REPO/src/main.rs"
    echo "mod verif_executor {"; sed '1,/^\/\/ ==== body/d' "$HERE/$d/src/main.rs"; echo "}"
    echo "fn main() { verif_executor::main() }"; } > "$a/src/main.rs"
  rm -rf "$B/$n"/*/.fingerprint/c8s-*
  CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true \
    cargo build --release --offline --manifest-path "$a/Cargo.toml" --target-dir "$B/$n" >>"$LOG" 2>&1 &&
    cp "$B/$n/release/c8s" "$B/$n/release/c8s-$n"
}

# 1. the explorer and the shim
cargo build --release --offline --manifest-path "$HERE/mc/Cargo.toml" --target-dir "$B/mc" >>"$LOG" 2>&1 || fail "mc"
if [ ! -e "$B/shim.so" ] || ! cmp -s "$HERE/shim/shim.c" "$B/shim.c"; then
  gcc -O2 -shared -fPIC -o "$B/shim.so" "$HERE/shim/shim.c" -ldl >>"$LOG" 2>&1 && cp "$HERE/shim/shim.c" "$B/shim.c" || fail "shim"
fi

# 2. the code under test; rebuilt whenever its content differs, whatever the time stamps say
HASH=$( (cd "$REPO" && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum; echo "$REPO") | sha256sum | cut -d' ' -f1)
if [ "$(cat "$B/stamp" 2>/dev/null)" != "$HASH" ]; then
  rm -f "$B/stamp"
  rm -rf "$B"/c8s/*/.fingerprint/c8s-* "$B"/worker/*/.fingerprint/c8s-* "$B"/opc/*/.fingerprint/c8s-*
  rm -f "$B/worker.ok" "$B/opc.ok" "$B/dev.ok"
  export CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true
  cargo build --release --offline --manifest-path "$REPO/Cargo.toml" --target-dir "$B/c8s" >>"$LOG" 2>&1 || fail "c8s"
  unset CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS
  for k in worker:inproc opc:opc; do
    n=${k%%:*}; d=${k##*:}
    mkdir -p "$B/$n-src/src"
    cp "$HERE/$d/Cargo.toml" "$B/$n-src/"; [ -e "$HERE/$d/Cargo.lock" ] && cp "$HERE/$d/Cargo.lock" "$B/$n-src/"
    sed "s#@REPO@#$REPO#" "$HERE/$d/src/main.rs" > "$B/$n-src/src/main.rs"
    if cargo build --release --offline --manifest-path "$B/$n-src/Cargo.toml" --target-dir "$B/$n" >>"$LOG" 2>&1; then
      : > "$B/$n.ok"
    elif alternative "$n" "$d"; then
      : > "$B/$n.ok"
    else
      echo "note: the $n executor does not build against this tree; the checks run on the command-line binary only" >&2
    fi
  done
  echo "$HASH" > "$B/stamp"
fi
if [ "$1" = --dev ] && [ ! -e "$B/dev.ok" ]; then
  cargo build --offline --manifest-path "$REPO/Cargo.toml" --target-dir "$B/c8s" >>"$LOG" 2>&1 || fail "c8s (dev profile)"
  : > "$B/dev.ok"
fi
exit 0
