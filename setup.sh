#!/bin/sh
# builds the MIR driver and warms the dependency build
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys
sys.path.insert(0, "sa")
sys.dont_write_bytecode = True
import extract
extract.build_driver()
for c in ("all", "none"):
    extract.extract(c)
print("ready")
P
