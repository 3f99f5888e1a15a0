#!/usr/bin/env python3
"""Builds every harness layer once, so that a check run in the same place starts from warm caches.
Checks do not depend on it."""
import os, shutil, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import lib
for tool in ("java", "cargo"):
    assert shutil.which(tool), tool + " is missing"
os.makedirs(lib.VERIF + "/evidence", exist_ok=True)
for layer in ("arith", "maybe", "circuits", "gadgets", "pcd", "app", "forge", "shapes"):
    try:
        lib.build(layer, vars={"SHAPES_RS": lib.VERIF + "/harness/shapes/src/none.rs"} if layer == "shapes" else None)
    except lib.CheckError as e:
        print(e, file=sys.stderr)
