#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (and checks it against properties.jsonl)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = "TLA+/TLC: exhaustive small model + trace validation of the real library against the specification"
CLAIMED = {
    "F01": "MC_Vfs exhaustive; model transitions and random histories replayed through Vfs and every result and tree checked by Trace_Vfs",
    "F02": "as F01, over mounts of nodes, host directories and disk images under all policies",
    "F03": "the specification parses the image bytes; saved images, valid and broken images mounted by the library are checked against it",
    "S01": "all short byte strings and call sequences in MC_Streams; traces of every backend validated",
    "S02": "all short write/seek sequences in MC_Streams; traces of every backend validated byte by byte",
    "S03": "chunk walking and framing specified over bytes; traces validated",
    "A01": "Archive.tla encodes and parses all three formats; exhaustive short entry sequences (MC_Archive) and random ones written and read by the library, bytes and values compared, foreign layouts included",
    "A02": "as A01, over object nestings, partial reads, skips from every position and truncated archives",
    "D01": "Vm.tla executes the bytecode; all short instruction sequences (MC_Vm) and random programs run on the real VM, every result and variable compared",
    "D02": "as D01, over call graphs, unbalanced callees and host calls with right and wrong signatures",
    "D03": "as D01, over member, array, constant and instance accesses under all flag settings",
    "D04": "as D01, with registered externals, overrides, default externals and refused registrations; the callback log is part of the trace",
    "D05": "as D01, with errors injected at every instruction position and in callbacks, all strategies, and later calls on the same VM",
    "D06": "the specification parses the script file itself; all small symbol tables (MC_Script) and random files",
    "D07": "as D01, with recursive functions and local variable storage switched on and off",
    "A03": "Objects.tla numbers and stores object graphs; all graphs of two objects with shared, cyclic and missing references (MC_Objects) and random graphs stored by the library, tokens and loaded graphs compared",
    "O01": "Objects.tla gives the entries of every class; every class with random fields under every game, save-game, packing and format setting, tokens and loaded fields compared",
    "W01": "all small forests with unknown classes and all small way-nets (MC_World) and random worlds saved, altered and loaded repeatedly into the same object",
    "C01": "all short histories of loads and lookups (MC_Cutscene) and random libraries, lookups of near-miss names",
    "G01": "all short histories of two games and slots incl. deleted and spoiled ones (MC_Saves) and random ones replayed through SaveGame in a scratch directory by an unprivileged process",
    "T01": "all small texture files and conversions (MC_Texture); every format, size and mipmap chain decoded by the specification from the bytes, compared with loads, conversions, saves and builds",
    "B01": "all small BSP trees and meshes (MC_Bsp); the specification derives polygons, leaves, sectors and portals from the bytes of the file; loaded, saved and re-loaded worlds compared",
    "M01": "Mds.tla splits the text into tokens and matches declarations; all short lists of declarations in five layouts, every part missing once (MC_Mds), and random scripts, whole and damaged",
    "M02": "Mds.tla decodes the chunks; compiled scripts with stray, unknown and overlong chunks, and the same declarations as text and compiled",
    "X01": "Model.tla lays out fonts, hierarchies and animations; all selections and orders of their chunks (MC_Model), random contents composed byte for byte by the specification, loads, saves and reloads compared",
    "X02": "Model.tla lays out multi-resolution, soft-skin, model and morph meshes with freely placed blocks; all selections and orders of chunks (MC_Model), random meshes composed, loaded, saved for both games and reloaded",
}
NOT = {}
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T, "level": "model_checking", "level_note": CLAIMED[i]})
    else:
        na.append({"property": i, "reason": NOT.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "Every check builds the library from /repo's working tree (through its CMakeLists.txt) with AddressSanitizer, without hooks."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
