#!/bin/bash
# builds a harness layer: b.sh LAYER
cd /verif && python3 - "$@" <<'P'
import sys; sys.path.insert(0,'checks')
import lib
try: print(lib.build(sys.argv[1], bins=sys.argv[2:]))
except lib.CheckError as e: print(str(e)[-5000:])
P
