#!/usr/bin/env python3
"""Prebuild the library objects of every flavour and the drivers (an optimisation: checks build what is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS
for f in sorted({r.get("flavour", "asan") for c in CHECKS.values() for r in c["runs"] if not r.get("thorough_only")}):
    with build.Lock(): build.objects(f, os.cpu_count() or 8, build.lib_sources())
    print("built", f)
