#!/usr/bin/env python3
"""Runs the check of one property: run.py <ID> [quick|thorough]."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import lib

prop = sys.argv[1]
mod = importlib.import_module(prop.lower())
_orig = lib.Check.__init__


def _init(self, *a, **k):
    _orig(self, *a, **k)
    self.assumptions = list(getattr(mod, "ASSUME", []))


lib.Check.__init__ = _init
lib.main({prop: mod.PARTS})
