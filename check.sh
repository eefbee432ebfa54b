#!/bin/bash
# check.sh PROPERTY: rebuild from /repo, then run the property's check.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bin="$(bash "$here/build.sh" | tail -1)"
[ -x "$bin" ] || exit 2
export VERIF_ROOT="$here"
cd "$here" && exec "$bin" "$@"
