#!/usr/bin/env python3
"""run.py Cxx: run one property's check (VERIF_TIER=quick|thorough, VERIF_SEED=n)."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(3000)

from vh import core  # noqa: E402

prop = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
mod = importlib.import_module("checks." + prop.lower())
sys.exit(core.main(mod.run, prop))
