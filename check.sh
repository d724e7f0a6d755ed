#!/bin/bash
# check.sh ID [quick|thorough] [scenario filter]   decide one property against /repo's working tree
# check.sh replay FILE                             re-run a reported counterexample concretely
# check.sh selftest                                compare the stand-ins with the real routines
# check.sh build                                   build the machinery
set -u
cd "$(dirname "$0")/harness" || exit 2
export GV_ROOT="$(cd .. && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$GV_ROOT/harness/target"
kani="$GV_ROOT/kani/run.py"
case "${1:-}" in
  G28|G31) exec python3 "$kani" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
  replay) grep -q '"harness"' "$2" && exec python3 "$kani" replay "$2" ;;
esac
log="$CARGO_TARGET_DIR/build.log"
mkdir -p "$CARGO_TARGET_DIR"
build() { # build NAME: the harness (gv), or the one against the derived copy with statistics (gvs)
  if cargo build --offline --locked --bin "$1" >"$log" 2>&1 ||
    # the hook into the L1 solver's state names private methods; without it only G15 is lost
    RUSTFLAGS="--cfg verif_hooks" cargo build --offline --locked --bin "$1" >"$log" 2>&1; then
    return
  fi
  tail -60 "$log" >&2
  echo "the harness does not build against /repo" >&2
  exit 2
}
derive() { # stats/glm: the current source with f64 replaced by a symbolic stand-in
  (cd ../stats/gfx && cargo build --offline --locked >"$log" 2>&1) || { tail -60 "$log" >&2; exit 2; }
  "$CARGO_TARGET_DIR/debug/gfx" /repo "$GV_ROOT/stats/glm" .. >"$log" 2>&1 || { tail -60 "$log" >&2; exit 2; }
  cd ../stats/gvs || exit 2
}
bin=gv
case "${1:-}" in
  G32|G33) bin=gvs ;;
  list) case "${2:-}" in G32|G33) bin=gvs ;; esac ;;
  replay) grep -Eq '"property": *"G3[23]"' "$2" && bin=gvs ;;
  build) build gv; [ -d ../stats ] && derive && build gvs; exit 0 ;;
esac
[ $bin = gvs ] && derive
build $bin
gv="$CARGO_TARGET_DIR/debug/$bin"
case "${1:-}" in
  replay|list|selftest) exec "$gv" "$@" ;;
  *) exec "$gv" check "$@" ;;
esac
