"""Builds the harnesses ahead of the checks (each check builds what is missing by itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import cargo, ToolError
try:
    for r in (False, True):
        cargo("seq", r)
    import conc
    conc.build()
    print("ok")
except ToolError as e:
    print(e)
    sys.exit(1)
