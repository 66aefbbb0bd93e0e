#!/bin/bash
# check.sh <property> [quick|thorough] [extra options of `bvhsim run`]
# check.sh --replay FILE
# check.sh --build
# Builds the simulator against /repo's current working tree (two profiles) and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
[ -n "$RUSTUP_TOOLCHAIN" ] || export RUSTUP_TOOLCHAIN=stable
build() {
  local log; log="$(mktemp)"
  # By what the files say, not by when they were written.
  local now; now="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" != "$now" ]; then
    rm -rf "$CARGO_TARGET_DIR"/{checked,plain}/.fingerprint/bvh_anim-*
    mkdir -p "$CARGO_TARGET_DIR"; printf '%s\n' "$now" >"$CARGO_TARGET_DIR/repo.sum"
  fi
  for p in checked plain; do
    # Literal documents are code: a change may be such that they no longer compile. Then the
    # simulator is built without them, and C15 says so.
    if ! cargo build --offline --quiet --manifest-path "$here/sim/Cargo.toml" --profile "$p" --features lits >"$log" 2>&1; then
      if ! cargo build --offline --quiet --manifest-path "$here/sim/Cargo.toml" --profile "$p" >"$log.2" 2>&1; then
        cat "$log.2" >&2; rm -f "$log" "$log.2"; echo "check.sh: the simulator does not build against /repo" >&2; exit 2
      fi
      grep -m3 -A4 '^error' "$log" >&2
    fi
  done
  rm -f "$log" "$log.2"
}
checked="$CARGO_TARGET_DIR/checked/bvhsim"; plain="$CARGO_TARGET_DIR/plain/bvhsim"
case "$1" in
  --build) build ;;
  --replay) build; exec "$checked" replay "$2" --checked "$checked" --plain "$plain" ;;
  C*)
    prop="$1"; shift
    tier="${VERIF_TIER:-quick}"
    case "$1" in quick|thorough) tier="$1"; shift ;; esac
    build
    exec "$checked" run "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" --checked "$checked" --plain "$plain" --verif "$here" "$@" ;;
  *) echo "usage: check.sh <property> [quick|thorough] | --replay FILE | --build" >&2; exit 2 ;;
esac
