#!/bin/bash
# Builds the small program beside this file against the crate in the current directory and runs it.
# Exit 0: the property held; anything else: it did not (or the program did not build).
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d) || exit 3
trap 'rm -rf -- "$scratch"' EXIT
cp -a "$here/demo" "$scratch/demo" || exit 3
sed -i "s|@REPO@|$repo|" "$scratch/demo/Cargo.toml"
cd "$scratch/demo" || exit 3
export CARGO_TARGET_DIR=$scratch/target SCRATCH=$scratch
unset GCE_METADATA_HOST HTTP_PROXY HTTPS_PROXY ALL_PROXY http_proxy https_proxy all_proxy
cargo build --offline --quiet 2>"$scratch/build.log" || { tail -30 "$scratch/build.log"; exit 3; }
timeout 120 "$scratch/target/debug/demo"
rc=$?
echo "demo: exit $rc"
exit $rc
