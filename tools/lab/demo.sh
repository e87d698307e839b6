#!/bin/bash
# Exit 0 when the property holds for this scenario on the phoenix-v1 in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
source /opt/vp/env.sh >/dev/null 2>&1
cd "$repo" || exit 3
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo/." "$work/"
sed -i "s#@REPO@#$repo#" "$work/Cargo.toml"
export CARGO_TARGET_DIR="$repo/target/demo" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
mkdir -p "$CARGO_TARGET_DIR"
touch "$repo/target/demo" 2>/dev/null
cd "$work" || exit 3
cargo clean -p phoenix-v1 >/dev/null 2>&1
if ! cargo build --offline >"$work/build.log" 2>&1; then
  tail -n 30 "$work/build.log" >&2
  exit 3
fi
"$CARGO_TARGET_DIR/debug/demo" >/dev/null 2>"$work/err"
rc=$?
tail -n 5 "$work/err" >&2
exit $rc
