#!/bin/bash
# Decides one property: check.sh C01 [options of 'ferrysim check']
# Exit 0: held; 1: violated (a VIOLATION line); 2: the check could not decide.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
shift
note=$("$here/build.sh") || exit 2
[ -n "$note" ] && echo "note: $note"
exec "${VERIF_BUILD:-$here/.build}/ferrysim" check "$id" -root "$here" -build "$note" "$@"
