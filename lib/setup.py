#!/usr/bin/env python3
"""Warms the object cache (the checks rebuild whatever has changed)."""
import sys
sys.dont_write_bytecode = True
import glob
import vf
try:
    vf.compile_objs(vf.sdk_sources(), vf.BASE_FLAGS + vf.ASAN)
    vf.compile_objs(sorted(glob.glob(vf.VERIF + "/harness/*.cpp")),
                    vf.BASE_FLAGS + vf.ASAN)
except vf.ToolError as e:
    print("not fatal:", e)
