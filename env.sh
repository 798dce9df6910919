# sourced by check.sh and setup.sh
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTFLAGS="--cap-lints allow"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
# The library is rebuilt whenever the content of /repo differs from the content it was last
# built from, whatever the file times say.
build_bins() {
  local args=() b h old
  for b in "$@"; do args+=(--bin "$b"); done
  mkdir -p "$ROOT/target"
  (
    flock 9
    h=$( { sha256sum /repo/Cargo.toml; find /repo/src -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum )
    old=$(cat "$ROOT/target/repo.stamp" 2>/dev/null)
    if [ "$h" != "$old" ]; then
      find "$ROOT/target/release/.fingerprint" -maxdepth 1 -name 'merkletree-*' -exec rm -rf {} + 2>/dev/null
    fi
    cd "$ROOT/harness" || exit 2
    if ! cargo build --quiet --release --offline --target-dir "$ROOT/target" "${args[@]}" >"$ROOT/target/build.$1.log" 2>&1; then
      tail -n 40 "$ROOT/target/build.$1.log" >&2
      echo "the harness does not build against /repo" >&2
      exit 2
    fi
    echo "$h" > "$ROOT/target/repo.stamp"
  ) 9>"$ROOT/target/lock" || return 2
}
