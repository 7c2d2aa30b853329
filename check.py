#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vk import core

MODULES = {"F": "p_vfs", "S": "p_stream", "A": "p_archive", "D": "p_daedalus", "M": "p_mds", "G": "p_save", "W": "p_world",
           "O": "p_objects", "C": "p_cutscene", "T": "p_texture", "B": "p_bsp", "X": "p_model"}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("vk." + {"A03": "p_objects"}.get(prop, MODULES[prop[0]]))
    sys.exit(core.main(mod.RUN[prop], prop, tier))


main()
