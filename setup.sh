#!/bin/sh
# Nothing to install: parse every specification and compile the harness once.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replay
python3 - <<'PY'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, ".")
from driver import core
c = core.Ctx("setup", "quick", 1)
try:
    c.binary()
    c.binary(race=True)
finally:
    c.cleanup()
PY
cd spec
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >../build/sany.log 2>&1 || { cat ../build/sany.log; exit 1; }
done
