#!/bin/bash
# Builds the scenario in main.rs on the runtime of the tree in the current directory, in a scratch folder, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d) || exit 99
trap 'rm -rf "$w"' EXIT
tar xzf "$here/sdk.tar.gz" -C "$w" || exit 99
cp "$here/main.rs" "$w/demo/src/main.rs" || exit 99
if [ "$repo" != /repo ]; then
	grep -rlE '/repo/' "$w" --include=Cargo.toml --include=*.rs | xargs sed -i "s#\"/repo/#\"$repo/#g"
fi
export SIM_TARGET_DIR=$w/target
. "$w/env.sh"
cd "$w" && cargo build -q --offline -p demo || exit 99
"$w/target/debug/demo"
