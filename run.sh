#!/bin/bash
# run.sh setup | run.sh build | run.sh <property> [quick|thorough]
# Rebuilds the harness (and /repo's current tree inside it) and decides one property.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VH_VERIF="$here" VH_REPO="${VH_REPO:-/repo}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER="$here/harness/rustc-wrap.sh"
T="$here/target"
build() {
  # the mtime of a changed or reverted file may predate the last build: go by content
  h=$(cd "$VH_REPO" && find src codegen build.rs Cargo.toml -type f 2>/dev/null | sort | xargs sha256sum | sha256sum)
  if [ "$h" != "$(cat "$T/repo.sum" 2>/dev/null)" ]; then
    find "$T/release/.fingerprint" -maxdepth 1 -name 'amqp-codec-*' -exec rm -rf {} + 2>/dev/null
    mkdir -p "$T"; echo "$h" >"$T/repo.sum"
  fi
  log="$T/build.log"; mkdir -p "$T"
  if ! (cd "$here/harness" && cargo build --release --offline --locked --target-dir "$T" >"$log" 2>&1); then
    cat "$log" >&2; echo "ERROR: the harness does not build" >&2; exit 2
  fi
}
case "$1" in
  build) build; exit 0;;
  setup) build; python3 "$here/codegen/gen.py"; exit 0;;
esac
id="$1"; [ -n "$2" ] && export VERIF_TIER="$2"
case "$id" in
  C24|C25) exec python3 "$here/codegen/drive.py" "$id";;
esac
build
exec "$T/release/vh" check "$id"
