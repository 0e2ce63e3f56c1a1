#!/bin/bash
# Builds the harness once against /repo's working tree (checks build it again).
dir=$(dirname "$(realpath "$0")")
. "$dir/env.sh" || exit 1
bin=$(mktemp -d /tmp/vhbin.XXXXXX) || exit 1
trap 'rm -rf "$bin"' EXIT
cd "$dir/harness" && go build -o "$bin/vh" . && "$bin/vh" list >/dev/null
