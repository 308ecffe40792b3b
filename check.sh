#!/bin/bash
# check.sh build            build the checker against /repo's working tree
# check.sh <ID>             explore property <ID> (tier from VERIF_TIER)
# check.sh --replay <file>  re-execute one recorded history
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$HERE" || exit 2
for v in $(compgen -e | grep '^ADAPTON_'); do unset "$v"; done
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
H=$( { find /repo/src mc/src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml mc/Cargo.toml mc/Cargo.lock 2>/dev/null; } | sha256sum | cut -c1-16)
BASE="$HERE/target"
TD="$BASE/b-$H"
mkdir -p "$BASE"
exec 9>"$BASE/lock"
flock 9
if [ ! -x "$TD/ok/mc" ]; then
  # keep at most the newest three other builds
  ls -1dt "$BASE"/b-* 2>/dev/null | tail -n +4 | while read -r d; do rm -rf "$d"; done
  if ! cargo build --release --offline --locked --manifest-path "$HERE/mc/Cargo.toml" --target-dir "$TD" >"$BASE/build.log" 2>&1; then
    tail -40 "$BASE/build.log"
    echo "HARNESS-ERROR: the checker does not build against /repo"
    exit 2
  fi
  mkdir -p "$TD/ok" && mv "$TD/release/mc" "$TD/ok/mc.tmp" && mv "$TD/ok/mc.tmp" "$TD/ok/mc" && rm -rf "$TD/release"
fi
flock -u 9
exec 9>&-
export MC_ROOT="$HERE" MC_KNOWN="$HERE/known_findings.txt"
case "${1:-}" in
  build) exit 0 ;;
  --replay) exec "$TD/ok/mc" replay "$2" ;;
  "") echo "usage: check.sh build | <ID> | --replay <file>"; exit 2 ;;
  *)
    ulimit -v 6000000
    exec "$TD/ok/mc" check "$1" ;;
esac
