#!/bin/bash
# Builds the harness against /repo's current working tree with the hooks on; prints the binary's
# path as its last line. Falls back to the sliced crate (the part of /repo that builds without the
# missing git dependency) when the whole database does not compile.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
repo="${REPO:-/repo}"
export RUSTUP_TOOLCHAIN=1.90 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
target="$here/harness/target"
mkdir -p "$target"

# Cargo decides by modification time; decide by content instead.
stamp="$( (cd "$repo" && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)"
log="$target/build.log"
started=$(date +%s)

full() {
  cd "$here/harness" || return 1
  export RUSTFLAGS="--cfg tonbo_verif --cfg tonbo_verif_full --cap-lints warn"
  if [ -f "$target/stamp" ] && [ "$(cat "$target/stamp")" != "$stamp" ]; then
    cargo clean --offline -p tonbo >/dev/null 2>&1
  fi
  rm -f "$target/stamp"
  cargo build --offline >"$log" 2>&1 || return 1
  echo "$stamp" >"$target/stamp"
  bin="$target/debug/tonbo-verif"
}

sliced() {
  local work="$target/sliced"
  rm -rf "$here/harness/target/sliced/crate" "$here/harness/target/sliced/harness"
  mkdir -p "$work/crate" "$work/harness"
  /opt/vp/partial/slicer/target/release/slicer "$repo" /opt/vp/partial/omit.txt "$work/crate" >>"$log" 2>&1 || return 1
  cp -r "$here/harness/src" "$work/harness/src"
  sed -e "s|path = \"/repo\"|path = \"../crate\"|" -e '/^\[patch/,/^aisle/d' "$here/harness/Cargo.toml" >"$work/harness/Cargo.toml"
  grep -v '^ "aisle",$' "$here/harness/Cargo.lock" >"$work/harness/Cargo.lock"
  cd "$work/harness" || return 1
  export RUSTFLAGS="--cfg tonbo_verif --cap-lints warn"
  CARGO_TARGET_DIR="$work/target" cargo build --offline --no-default-features >>"$log" 2>&1 || return 1
  bin="$work/target/debug/tonbo-verif"
}

if [ "$VERIF_BUILD" = sliced ] || ! full; then
  echo "the whole database does not build; falling back to the sliced crate" >&2
  if ! sliced; then
    tail -60 "$log" >&2
    echo "the harness does not build against $repo" >&2
    exit 2
  fi
fi
echo "build took $(( $(date +%s) - started )) s" >&2
echo "$bin"
