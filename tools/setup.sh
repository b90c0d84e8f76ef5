#!/bin/bash
# Builds the checking engine; nothing outside /verif is written.
set -e
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/bin" "$here/work"
cd "$here/engine"
go build -o "$here/bin/engine.new.$$" .
mv "$here/bin/engine.new.$$" "$here/bin/engine"
