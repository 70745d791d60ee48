# Sourced by check.sh and setup.sh: builds the monitors against /repo's current tree.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RAV1E_CPU_TARGET CARGO_PROFILE_DEV_DEBUG
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
STABLE=stable-x86_64-unknown-linux-gnu

# Cargo decides by time stamps; decide by content: when the sources differ from the ones the
# target folder was built from, forget what was built of rav1e and ivf.
src_hash() {
  (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \
     \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.asm' -o -name '*.S' -o -name '*.h' -o -name '*.c' \) -print0 \
     | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum
}
freshen() { # target-dir
  local t=$1 new old
  mkdir -p "$t"
  new=$(src_hash)
  old=$(cat "$t/vp-src.sha256" 2>/dev/null)
  if [ "$new" != "$old" ]; then
    rm -f "$t/vp-src.sha256"
    find "$t" -maxdepth 4 -type d -path '*/.fingerprint/*' \( -name 'rav1e-*' -o -name 'ivf-*' \) -exec rm -rf {} + 2>/dev/null
    find "$t" -maxdepth 6 -type f -name asm.hash -path '*/rav1e-*' -delete 2>/dev/null
  fi
  echo "$new" > "$t/vp-src.sha256.new"
}
built() { mv "$1/vp-src.sha256.new" "$1/vp-src.sha256"; }

run_build() { # log, command...
  local log=$1; shift
  "$@" > "$log" 2>&1 || { echo "build failed:" >&2; grep -A12 -E '^error' "$log" | head -60 >&2; return 1; }
}
build_main() {
  local t=$VERIF/target
  freshen "$t"
  run_build "$t/build.log" env RUSTUP_TOOLCHAIN=$STABLE CARGO_TARGET_DIR="$t" \
    cargo build --offline --locked --manifest-path "$VERIF/harness/Cargo.toml" --bin vmon || return 1
  built "$t"
  VMON=$t/debug/vmon
}
# the monitors of internal parts: a program of its own, so that the others do not depend on internal signatures
build_kern() {
  local t=$VERIF/target
  freshen "$t"
  run_build "$t/build-kern.log" env RUSTUP_TOOLCHAIN=$STABLE CARGO_TARGET_DIR="$t" \
    cargo build --offline --locked --manifest-path "$VERIF/harness/Cargo.toml" --bin vkern --features kern || return 1
  built "$t"
  VMON=$t/debug/vkern
}

build_asan() {
  local t=$VERIF/target/asan
  freshen "$t"
  run_build "$t/build.log" env RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$t" RUSTFLAGS="-Zsanitizer=address" \
    cargo build --offline --locked --target x86_64-unknown-linux-gnu --manifest-path "$VERIF/harness/Cargo.toml" --no-default-features \
    --features asm,rav1e/threading,rav1e/signal_support,rav1e/binaries --bin vsan || return 1
  built "$t"
  export VMON_ASAN=$t/x86_64-unknown-linux-gnu/debug/vsan
}
# the standard library is rebuilt with instrumentation too; portable kernels only
build_tsan() {
  local t=$VERIF/target/tsan
  freshen "$t"
  run_build "$t/build.log" env RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$t" RUSTFLAGS="-Zsanitizer=thread" \
    cargo build -Zbuild-std --offline --target x86_64-unknown-linux-gnu --manifest-path "$VERIF/harness/Cargo.toml" --no-default-features \
    --features rav1e/threading,rav1e/signal_support,rav1e/binaries --bin vsan || return 1
  built "$t"
  export VMON_TSAN=$t/x86_64-unknown-linux-gnu/debug/vsan
}
# the command-line programs
build_cli() {
  local t=$VERIF/target/cli
  freshen "$t"
  (cd /repo && run_build "$t/build.log" env RUSTUP_TOOLCHAIN=$STABLE CARGO_TARGET_DIR="$t" \
    cargo build --offline --locked --features serialize,channel-api,unstable --bin rav1e --bin rav1e-ch) || return 1
  built "$t"
  export VMON_CLI=$t/debug/rav1e VMON_CLI_CH=$t/debug/rav1e-ch
}
