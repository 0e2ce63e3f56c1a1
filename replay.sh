#!/bin/bash
# usage: replay.sh FILE   replays one saved case against /repo's working tree
dir=$(dirname "$(realpath "$0")")
. "$dir/env.sh" || exit 3
bin=$(mktemp -d /tmp/vhbin.XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
f=$(realpath "$1")
race=
grep -qE '"prop(erty)?": *"P(23|27)"' "$f" && race=-race
(cd "$dir/harness" && go build $race -o "$bin/vh" .) || { echo "build failed" >&2; exit 3; }
VH_VERIF=$dir "$bin/vh" replay "$f"
