#!/bin/bash
# run.sh <ID>                      run one property's check (tier from VERIF_TIER, default quick)
# run.sh replay <ID> <tier> <case> re-run one enumerated case
# run.sh build                     only build
# Exit status: 0 the property held on everything explored, 1 with a VIOLATION line, 2 an error of the check.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
T=$VERIF/target
mkdir -p "$T" "$VERIF/evidence" || exit 2

stamp() { # content hash of everything that goes into the build
  (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
   cd "$VERIF/mc" && find . -path ./target -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-40
}

build() {
  exec 9>"$T/lock"
  flock 9
  local s; s=$(stamp)
  if [ "$(cat "$T/stamp" 2>/dev/null)" != "$s" ] || [ ! -x "$T/mc/release/mc" ] || [ ! -x "$T/bin/debug/at-asm" ]; then
    rm -f "$T/stamp"
    # sources changed: never trust time stamps, rebuild the crates under test and the harness
    for c in at-x64 at-mac at-obj at-asm mc; do
      find "$T/mc" "$T/bin" -maxdepth 3 -type d -path '*/.fingerprint/*' -name "$c-*" -print0 2>/dev/null | xargs -0 -r rm -rf
    done
    (cd "$VERIF/mc" && cargo build --release --offline --locked --target-dir "$T/mc") >"$T/build.log" 2>&1 &&
    cargo build --manifest-path /repo/Cargo.toml -p at-asm --bin at-asm --offline --locked --target-dir "$T/bin" >>"$T/build.log" 2>&1 ||
      { echo "engine error: the build failed" >&2; grep -A12 -E '^error' "$T/build.log" | head -60 >&2; exit 2; }
    echo "$s" >"$T/stamp"
  fi
  exec 9>&-
}

export MC_VERIF=$VERIF MC_BIN=$T/bin/debug/at-asm
case "${1:-}" in
  build) build; exit 0 ;;
  replay) build; exec "$T/mc/release/mc" "$@" ;;
  "") echo "usage: run.sh <ID> | replay <ID> <tier> <case> | build" >&2; exit 2 ;;
  *) build; exec "$T/mc/release/mc" check "$1" "${VERIF_TIER:-quick}" ;;
esac
