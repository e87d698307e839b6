#!/bin/bash
# check.sh <property> <quick|thorough>: rebuild the simulator against /repo's working tree and run
# the simulated executions that judge one property.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
"$here/build.sh" >"$here/target-build.$prop.log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
  tail -n 40 "$here/target-build.$prop.log" >&2
  echo "check.sh: the simulator does not build against /repo" >&2
  exit 2
fi
rm -f "$here/target-build.$prop.log"
mkdir -p "$here/evidence" "$here/replays"
exec "$here/target/release/simchain" check "$prop" "$tier" "$here/evidence/$prop.json" "$here/replays" "$here/known-findings.txt"
