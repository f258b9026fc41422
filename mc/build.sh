# sourced: build_harness <harness crate> <packages holding /repo's code>
build_harness() {
  local h=$1 root lib from=src
  shift
  root=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
  export CARGO_TARGET_DIR="$root/target/$h" CARGO_NET_OFFLINE=true
  export RUSTFLAGS="--cap-lints warn -Awarnings" RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
  unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
  [ "$h" = hex ] && from="src examples"
  mkdir -p "$CARGO_TARGET_DIR"
  (
    flock 9
    # /repo's sources are told apart by content, never by time stamps
    now=$(cd /repo && find $from -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$now" != "$(cat "$CARGO_TARGET_DIR/sources" 2>/dev/null)" ]; then
      rm -f "$CARGO_TARGET_DIR/sources"
      for lib in "$@"; do
        cargo clean --offline --locked -q --manifest-path "$root/$h/Cargo.toml" -p "$lib" 2>/dev/null
      done
    fi
    log="$CARGO_TARGET_DIR/build.log"
    if ! cargo build --offline --locked -q --manifest-path "$root/$h/Cargo.toml" >"$log" 2>&1; then
      tail -60 "$log" >&2
      exit 1
    fi
    echo "$now" > "$CARGO_TARGET_DIR/sources"
  ) 9>"$CARGO_TARGET_DIR/lock"
}
