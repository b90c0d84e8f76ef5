#!/bin/bash
# check.sh PROPERTY quick|thorough: decides one property for /repo's working tree
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")/.." && pwd)
if [ ! -x "$here/bin/engine" ] || [ -n "$(find "$here/engine" -name '*.go' -newer "$here/bin/engine" | head -1)" ]; then
	bash "$here/tools/setup.sh" || exit 2
fi
exec "$here/bin/engine" check -verif "$here" -prop "$1" -tier "${2:-quick}"
