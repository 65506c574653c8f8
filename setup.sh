#!/bin/sh
# warms .cache: driver, workspace facts, generator
cd "$(dirname "$0")" && exec python3 - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, ".")
from sa import facts
s = facts.Store()
s.workspace()
s.generator()
P
