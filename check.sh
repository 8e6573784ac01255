#!/bin/bash
# check.sh <property>            run one property's monitors (VERIF_SEED, VERIF_TIER)
# check.sh replay <file>         re-run the case of a replay file
# check.sh setup                 build everything once
set -u
cd "$(dirname "$0")" || exit 2
export VMON_ROOT="$PWD"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$VMON_ROOT/target"
export RUSTC_WRAPPER="$VMON_ROOT/tools/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS

# The library is rebuilt whenever its sources differ from those of the last build, whatever the time stamps say.
# Should the hooks not compile against the sources, the monitors that do without them are built.
build_mode() {
  rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/miniboosts-* "$CARGO_TARGET_DIR"/debug/.fingerprint/vmon-*
  VMON_HOOKS=$1 cargo build --offline --quiet --manifest-path harness/Cargo.toml >"$CARGO_TARGET_DIR/build.log" 2>&1
}
build() {
  local stamp want
  stamp="$CARGO_TARGET_DIR/repo.stamp"
  want=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cd "$VMON_ROOT" && find harness tools/rustc-wrap.sh -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
  if [ "$(cat "$stamp" 2>/dev/null)" = "$want" ] && [ -x "$CARGO_TARGET_DIR/debug/vmon" ]; then return 0; fi
  rm -f "$stamp"
  if ! build_mode 1; then
    cp "$CARGO_TARGET_DIR/build.log" "$CARGO_TARGET_DIR/build-hooks.log"
    echo "build with hooks failed, trying without" >&2
    if ! build_mode 0; then
      tail -n 40 "$CARGO_TARGET_DIR/build-hooks.log" >&2
      echo "build of the monitors against /repo failed" >&2
      return 2
    fi
  fi
  echo "$want" > "$stamp"
}
mkdir -p "$CARGO_TARGET_DIR" evidence

case "${1:-}" in
  setup) build || exit 2; exec python3 tools/sanitize.py build ;;
  "") echo "usage: check.sh <property>|replay <file>|case <property> <family> <index>|setup" >&2; exit 2 ;;
esac
build || exit 2
export VMON_SCRATCH
VMON_SCRATCH=$(mktemp -d /tmp/vmon.XXXXXX) || exit 2
trap 'rm -rf "$VMON_SCRATCH"' EXIT
if [ "$1" = P25 ]; then python3 tools/sanitize.py run; else "$CARGO_TARGET_DIR/debug/vmon" "$@"; fi
rc=$?
exit $rc
