#!/bin/bash
# Builds the simulator against /repo's current working tree into /verif/target (offline).
# usage: build.sh [py]     with "py" also builds the Python extension module for C17
set -u
V="$(cd "$(dirname "$0")" && pwd)"
T="$V/target"
mkdir -p "$T"
exec 9>"$T/.lock"
flock 9
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
# cargo decides by file times whether to rebuild; in copies of the tree these may mean nothing, so decide by content
sum=$(cd /repo && find Cargo.toml Cargo.lock dess dess-examples dess-examples-pyo3 -type f \
        \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
sim=$(cd "$V/sim" && find . -type f -not -path './target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
sum="$sum $sim"
one() { # name, target dir, manifest, packages to clean...
  local name=$1 td=$2 mf=$3; shift 3
  if [ "$(cat "$td/.stamp" 2>/dev/null)" != "$sum" ]; then
    local c=(); for p in "$@"; do c+=(-p "$p"); done
    [ -d "$td/release" ] && CARGO_TARGET_DIR="$td" cargo clean --release --offline --manifest-path "$mf" "${c[@]}" >/dev/null 2>&1
    rm -f "$td/.stamp"
  fi
  local log="$T/build-$name.log"
  if ! CARGO_TARGET_DIR="$td" cargo build --release --offline --manifest-path "$mf" >"$log" 2>&1; then
    echo "build of $name failed:" >&2; tail -40 "$log" >&2; return 2
  fi
  echo "$sum" >"$td/.stamp"
}
mkdir -p "$T/py"
if ! one dsim "$T" "$V/sim/Cargo.toml" dess dess-proc-macros dess-examples dsim 2>/dev/null; then
  # without the examples' main function, should that be what does not fit
  export DSIM_NO_MAIN=1
  one dsim "$T" "$V/sim/Cargo.toml" dess dess-proc-macros dess-examples dsim || exit 2
fi
if [ "${1:-}" = py ]; then
  one dess_pyo3 "$T/py" /repo/dess-examples-pyo3/Cargo.toml dess dess-proc-macros dess-examples dess-examples-pyo3 || exit 2
  mkdir -p "$T/py/mod" && cp -f "$T/py/release/libdess_pyo3.so" "$T/py/mod/dess_pyo3.so.new" && mv -f "$T/py/mod/dess_pyo3.so.new" "$T/py/mod/dess_pyo3.so" || exit 2
fi
exit 0
