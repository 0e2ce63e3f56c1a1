#!/bin/bash
# usage: check.sh PROP   (VERIF_SEED, VERIF_TIER from the environment)
# Builds the harness against /repo's working tree and checks one property.
dir=$(dirname "$(realpath "$0")")
. "$dir/env.sh" || exit 3
bin=$(mktemp -d /tmp/vhbin.XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
race=
case $1 in P23|P27) race=-race ;; esac # these checks need the race detector
(cd "$dir/harness" && go build $race -o "$bin/vh" .) || { echo "build failed" >&2; exit 3; }
VH_VERIF=$dir "$bin/vh" check "$1"
