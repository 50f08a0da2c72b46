#!/usr/bin/env python3
"""Writes the list of functions of the analysed tree (functions outside it are inlined)."""
import sys, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from zcheck.model import Program
p = Program()
pathlib.Path(__file__).resolve().parent.parent.joinpath("zcheck/base_functions.txt").write_text("\n".join(sorted(p.funcs)) + "\n")
print(len(p.funcs))
