#!/usr/bin/env python3
"""Warm-up: builds the extractor and the harness once. Checks do not depend on it."""
import os, subprocess
import vp, check
os.makedirs(vp.BUILD, exist_ok=True)
print(vp.build_vx())
exe, err = check.build_harness("c04")
print(exe or err[-2000:])
try:
    print(len(vp.extract(vp.build_vx())[0]), "items")
except Exception as x:
    print("extraction:", x)
