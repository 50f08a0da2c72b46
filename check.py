#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property from /repo's source."""
import argparse
import importlib
import os
import pathlib
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))

from zcheck import core  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    mod = importlib.import_module(f"zcheck.rules.{a.property.lower()}")
    sys.exit(core.run(a.property, a.tier, mod.RULES, mod.__doc__.strip()))
