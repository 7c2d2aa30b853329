#!/usr/bin/env python3
"""Writes known-findings.txt: one 'fixed:' line per fix commit in /repo (property by commit subject), then the open findings."""
import os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # (start of the commit subject, property)
    ("looking up or removing something below a VFS", "F01"), ("VFS nodes with trailing", "F01"), ("refuse broken VFS", "F03"),
    ("VFS disk timestamps", "F03"), ("host files mounted", "F02"), ("stream readers got stuck", "S01"), ("memory-mapping an empty", "S01"),
    ("dividing the smallest", "D01"), ("function variables started", "D03"), ("accessing the value of a script function", "D03"),
    ("the VM ran on forever", "D01"), ("string values got mixed up", "D02"), ("failed calls left", "D05"), ("the default external", "D04"),
    ("members were accessed in the memory", "D03"), ("reading float members", "D03"), ("initialising an instance", "D03"),
    ("passing an unbound instance", "D04"), ("saving local variables", "D07"), ("recursive functions returned", "D07"),
    ("returning from a function with a full", "D02"), ("printing the stack trace", "D05"), ("calling a function that returns a function", "D02"),
    ("locals of a function at the end", "D06"), ("string constants with certain parents", "D06"),
    ("large negative integers were", "A01"), ("bytes and words in ASCII", "A01"), ("matrices in ASCII", "A01"), ("small bytes in raw", "A01"),
    ("archives were damaged if the date", "A01"), ("content starting with a line feed", "A01"), ("looking for the end of an object", "A02"),
    ("strings that look like object markers", "A02"), ("object and class names were read", "A02"), ("skipping an object of a truncated", "A02"),
    ("animation mode and bias of packed objects", "O01"), ("objects with physics but without", "O01"), ("event managers were saved where", "O01"),
    ("objects saved without packing", "O01"), ("names of visuals without an object", "O01"), ("properties of sounds were saved", "O01"),
    ("properties of movers were saved", "O01"), ("colour animations of lights", "O01"), ("only the first packed value of an NPC", "O01"),
    ("screen effects were saved with too little", "O01"), ("code masters in Gothic 2", "O01"), ("missing items of NPCs crashed", "O01"),
    ("spawn flags of worlds", "O01"), ("properties of the sky controller", "O01"), ("alpha functions of materials", "O01"),
    ("poses of camera key-frames", "O01"), ("the properties of triggers that replace", "O01"), ("way-points whose first edge", "W01"),
    ("loading a world again kept", "W01"), ("detecting the version of an archive", "W01"), ("polygons of Gothic 2 meshes were saved", "B01"), ("the upper bit of the normal axis", "B01"), ("loading a BSP tree without nodes", "B01"), ("loading a mesh or BSP tree again", "B01"), ("loading a cutscene without a block", "O01"), ("looking for an unknown cutscene", "C01"),
    ("loading a cutscene library again", "C01"), ("loading a save-game again kept", "G01"), ("loading a cutscene manager again", "G01"),
    ("save-games without a thumbnail", "G01"), ("saving over the current save-game", "G01"), ("a save-game that could not be loaded", "G01"), ("saving a game again after", "G01"),
    ("loading a texture again kept", "T01"), ("converting a ", "T01"), ("the smallest mipmaps of non-square", "T01"), ("compressing a texture", "T01"),
    ("building a non-square texture", "T01"), ("the mipmaps of built textures", "T01"), ("full green of R5G6B5", "T01"),
    ("fonts with an empty name", "X01"), ("events of animations with empty", "X01"), ("dates of the sources of morph", "X02"), ("saved multi-resolution meshes claimed", "X02"), ("saved submeshes stored", "X02"), ("weights and nodes of soft-skin", "X02"), ("the weights of saved soft-skin", "X02"), ("all attachments of a model mesh", "X02"), ("saved model meshes did not say", "X02"),
    ("loading a mesh again kept", "B01"), ("loading a BSP tree again kept", "B01"), ("a saved BSP tree without light", "B01"), ("the bounding box of an oriented", "B01"),
    ("model scripts without a line break", "M01"), ("unterminated strings in model", "M01"), ("upper-case declarations after", "M01"), ("an animation without events at", "M01"),
    ("event frames in model scripts", "M02"), ("loading a model script again", "M01"), ("events before the first animation", "M02"), ("empty arguments of events", "M02"),
]
OPEN = [
    ("W01", "playlist", "a world whose cutscene player has a context on its play list: World::load(Read*) leaves an empty reference, because CutscenePlayer::playlists and "
     "EventManager::cutscene are weak and nothing else owns a context; saving the world again loses it (repair would change the type of a public member)"),
]   # (property, key, text)
out = []
for line in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        p = [p for k, p in PROP if s[5:].startswith(k)]
        assert len(p) == 1, s
        out.append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
for p, k, t in OPEN:
    out.append("finding: property=%s key=%s %s" % (p, k, t))
open(os.path.join(here, "known-findings.txt"), "w").write("\n".join(out) + "\n")
print(len(out))
