#!/bin/bash
# Offline build of the harness (and, through its path dependency, of /repo's working tree).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
log="$here/harness/target/build.log"
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
mkdir -p "$here/harness/target"; export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/harness/target"
unset RUSTFLAGS
# Cargo goes by modification times; make sure that a changed tree is rebuilt whatever its times are.
sum="$(cd /repo && find src Cargo.toml Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum 2>/dev/null | sha256sum)"
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
  find "$CARGO_TARGET_DIR/release/.fingerprint" "$CARGO_TARGET_DIR/plain/.fingerprint" -maxdepth 1 -name 'probability-*' -exec rm -rf {} + 2>/dev/null
fi
if ! (cd "$here/harness" && cargo build --release --offline && cargo build --profile plain --offline) >"$log" 2>&1; then
  tail -40 "$log" >&2
  echo "check: the build failed" >&2
  return 3 2>/dev/null || exit 3
fi
echo "$sum" >"$CARGO_TARGET_DIR/repo.sum"
return 0 2>/dev/null || exit 0
