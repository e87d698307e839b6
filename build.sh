#!/bin/bash
# Builds /verif/sim against the current contents of /repo (content decides, not timestamps).
here="$(cd "$(dirname "$0")" && pwd)"
source /opt/vp/env.sh || exit 2
cd "$here/sim" || exit 2
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.verif-lock"
flock 9
now="$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' -o -name '*.json' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)"
mine="$(find "$here/sim/src" "$here/sim/Cargo.toml" "$here/sim/Cargo.lock" -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
want="$now $mine"
stamp="$CARGO_TARGET_DIR/.verif-repo-hash"
if [ -x "$CARGO_TARGET_DIR/release/simchain" ] && [ "$(cat "$stamp" 2>/dev/null)" = "$want" ]; then
  exit 0
fi
rm -f "$stamp"
cargo clean --release -p phoenix-v1 || exit 2
cargo clean --release -p simchain || exit 2
cargo build --release --offline --locked || exit 2
echo "$want" >"$stamp"
