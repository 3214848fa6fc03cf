#!/bin/bash
# check.sh <property> <quick|thorough>: rebuilds the simulator against /repo's working tree, runs one check.
# exit 0: held; 1: VIOLATION line printed; 2: no answer (build failure, broken harness).
set -u
dir=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case "$seed" in *[!0-9]*|'') seed=1 ;; esac
export CARGO_TARGET_DIR="$dir/target" CARGO_NET_OFFLINE=true
log=$(mktemp)
trap 'rm -f "$log"' EXIT
(
  # cargo goes by modification times, which a checkout may leave older than the last build
  flock 9
  rm -rf "$dir"/target/release/.fingerprint/cloud-storage-signature-*
  cd "$dir/sim" && cargo build --release --offline --locked >"$log" 2>&1
) 9>"$dir/.build.lock"
if [ $? -ne 0 ]; then
  tail -40 "$log" >&2
  echo "check.sh: the simulator does not build against /repo" >&2
  exit 2
fi
"$dir/target/release/sim" check "$prop" "$tier" "$seed" "$dir"
