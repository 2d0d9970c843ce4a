"""Builds what the checks need (they rebuild it themselves from the current tree)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
for f in vlib.FEATURES:
    vlib.build(f)
vlib.build_bin("algokey")
