#!/bin/bash
# RUSTC_WRAPPER: turns on cfg(vp_hooks) for the library and the monitors only,
# so that the other dependencies are built once for both modes.
rustc=$1; shift
case "${CARGO_PKG_NAME:-}" in
  miniboosts|vmon)
    if [ "${VMON_HOOKS:-1}" = 1 ]; then exec "$rustc" "$@" --cfg vp_hooks --check-cfg 'cfg(vp_hooks)'; fi
    exec "$rustc" "$@" --check-cfg 'cfg(vp_hooks)' ;;
esac
exec "$rustc" "$@"
