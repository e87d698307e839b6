#!/bin/bash
# replay.sh <file>: rebuild against /repo and execute a recorded schedule; exit 1 if it still violates
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" >/dev/null 2>&1 || { echo "build failed" >&2; exit 2; }
f="$(realpath "$1")"
exec "$here/target/release/simchain" replay "$f" 3>&1 1>/dev/null 2>&3
