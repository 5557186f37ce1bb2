#!/bin/bash
# bash check.sh ID [quick|thorough]: builds the explorer from /repo's current working tree and runs one check.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$here/env.sh"
export VERIF_DIR=$here
bin=$(mktemp -d "${TMPDIR:-/tmp}/mcbin.XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
export MC_BIN=$bin
( cd "$here/mc" && go build -o "$bin/mc" . ) || { echo "check.sh: the explorer does not build against /repo" >&2; exit 2; }
"$bin/mc" check "$1" "${2:-quick}"
