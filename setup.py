#!/usr/bin/env python3
"""Prepares a fresh sandbox: builds the library and all drivers once (the checks rebuild what changed)."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vk.core import build, VERIF
build(*[os.path.splitext(os.path.basename(f))[0] for f in glob.glob(os.path.join(VERIF, "drivers", "drv_*.cc"))])
print("ready")
