#!/bin/bash
# replay.sh FILE: runs the recorded counterexample natively against /repo's
# working tree and prints what happened; exit 1 if the property is violated
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")/.." && pwd)
[ -x "$here/bin/engine" ] || bash "$here/tools/setup.sh" || exit 2
exec "$here/bin/engine" replay -verif "$here" -file "$1"
