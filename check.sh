#!/bin/bash
# usage: check.sh <property> [thorough]
d=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
[ -x "$d/bin/gotextcheck" ] || bash "$d/setup.sh" >&2 || exit 2
. /opt/vp/env.sh
cd "$d"
GOTEXT_VERIF="$d" exec "$d/bin/gotextcheck" check "$@"
