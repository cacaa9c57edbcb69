#!/bin/bash
# bash check.sh Cnn [options of gosym check]: decides one property against /repo's current working tree.
# VERIF_TIER=quick|thorough selects the tier. Exit 0 held, 1 violation, 2 error.
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
prop=$1
shift
"$root/setup.sh" || exit 2
exec "$root/.build/gosym" check -prop "$prop" -root "$root" "$@"
