#!/usr/bin/env python3
"""Writes properties.jsonl from the list below (kept as code so that long lines stay readable)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ virtual file system
prop("F01", "VFS lookups agree with a case-insensitive tree",
     "After any history of directory creations, mounts and removals, resolving a path returns exactly the node an "
     "ordinary tree would hold at that path when names are compared without regard to letter case and trailing "
     "whitespace, or nothing if there is none (also below a file); removing reports whether such a node existed, and operations leave every other node as it was. "
     "Searching the whole tree for a bare name succeeds exactly when some directory of the tree contains a node of that name, and returns such a node. "
     "Creating a directory through an existing file, or mounting below a file or a missing parent, is refused with the documented error and changes nothing.",
     ["histories", "inputs"], "every sequence of mkdir / mount / remove / resolve / find calls and every spelling of the names",
     "The tests look up a fixed sample archive; the guarantee is about every reachable tree and every interleaving of operations and spellings.",
     ["src/Vfs.cc", "include/zenkit/Vfs.hh", "src/Misc.cc"],
     [("ordered child set keyed case-insensitively", "src/Vfs.cc VfsNode::child/create/remove"), ("path walking", "src/Vfs.cc Vfs::resolve/mkdir/remove/find")],
     ["Vfs::root() walked recursively after every call", "return values / thrown error class"], ["the node tree of a Vfs"])
prop("F02", "Mount conflicts follow the overwrite policy",
     "Whatever is mounted (a node, a disk image or a host directory) and whatever is already there, directories of the same name are merged recursively and all nodes without a counterpart are taken over unchanged (empty host files are left out). "
     "A conflict in which at least one side is a file is decided for that node alone, by the policy and the two timestamps only: never replace, always replace, replace only if the existing node is strictly newer, replace only if it is strictly older. "
     "The losing node (with everything below it) disappears completely and the winning node keeps its own name spelling, timestamp and contents.",
     ["inputs", "configurations", "histories"], "all pairs of trees, all four policies, all timestamp orders, chains of mounts",
     "No test mounts anything twice or passes a policy.",
     ["src/Vfs.cc"], [("conflict rule for nodes", "src/Vfs.cc Vfs::mount"), ("conflict rule while reading a disk", "src/Vfs.cc Vfs::mount_disk load_entry"), ("host directory import", "src/Vfs.cc Vfs::mount_host")],
     ["tree dump after each mount"], ["the node tree", "node timestamps"])
prop("F03", "Disk images reproduce the saved tree; broken images are refused",
     "Saving a virtual file system (in which no directory is empty) as a disk image for either game and mounting that image into an empty file system yields the same directories, names and file bytes, every node carrying the image's timestamp (2 s resolution). "
     "Mounting an image with an unknown signature, one marked as compressed, or one whose catalog is cut short or refers back to itself fails with the broken-disk error instead of hanging or crashing. "
     "Catalog entries whose data would lie outside the image are left out and all other entries are still mounted.",
     ["inputs", "fault_sequences"], "every tree, both game versions, every catalog (including truncated, cyclic and out-of-range ones)",
     "One sample image is read; nothing is written, and no malformed image is tried.",
     ["src/Vfs.cc"], [("catalog writer", "src/Vfs.cc Vfs::save_internal"), ("catalog reader", "src/Vfs.cc Vfs::mount_disk(buf,size)")],
     ["image bytes parsed independently", "tree dump after mount_disk"], ["image header, 80-byte catalog entries, data area"])

# ------------------------------------------------------------------ streams
prop("S01", "A read stream is a byte cursor, whatever its source",
     "A reader over memory, a byte vector, a memory-mapped or plain file or an input stream holding the same bytes gives the same results for the same calls: little-endian integers, floats, vectors, matrices, fixed-length strings and lines are decoded from the bytes at the cursor, and the cursor advances by exactly what was consumed. "
     "Bytes beyond the end read as zero, the cursor stops at the end, and end-of-stream is reported exactly when the cursor is at the end; a seek is relative to the start, the cursor or the end, and a seek outside data in memory leaves the cursor where it was.",
     ["inputs", "histories"], "all byte contents, all call sequences, all backends",
     "Tests read a few fixed values once each from one backend.",
     ["src/Stream.cc", "include/zenkit/Stream.hh"], [("typed reads over raw read", "src/Stream.cc Read::read_*"), ("backends", "src/Stream.cc detail::ReadMemory/ReadDynamic/ReadStream/ReadFile")],
     ["returned value, tell(), eof() after each call"], ["cursor position", "byte contents"])
prop("S02", "A write stream places exactly the given bytes at the cursor",
     "Every typed write to a growable buffer, a fixed buffer or an output stream stores exactly the little-endian encoding of its argument at the cursor, advances the cursor by that many bytes, and changes no other byte; writing past the current end extends the data and a gap left by a forward seek reads as zero. "
     "A fixed-size destination takes the part that fits and no byte outside it is touched, and reading the result back with the matching read calls returns the written values.",
     ["inputs", "histories"], "all interleavings of writes and seeks, all value patterns, all backends",
     "Tests write one value per type to a fresh buffer and never seek back.",
     ["src/Stream.cc"], [("typed writes", "src/Stream.cc Write::write_*"), ("backends", "src/Stream.cc detail::WriteStatic/WriteDynamic/WriteStream")],
     ["buffer contents, tell() after each call"], ["cursor position", "byte contents"])
prop("S03", "Chunked files: every chunk is framed and unknown chunks are skipped",
     "A chunk written through the chunk helper is framed by its type and the exact length of its payload, and the following chunk starts right behind it. "
     "A chunked reader visits the chunks in file order, positions at each payload's start, and continues at the next chunk no matter how much of the payload the handler consumed; unknown chunks are skipped, and reading stops at the first chunk the handler declares to be the last or at the end of the data.",
     ["inputs", "histories"], "all chunk sequences, payload sizes and partial reads, for the formats built on chunks",
     "Sample files only contain known chunks that are read completely.",
     ["include/zenkit/Stream.hh"], [("chunk loop", "include/zenkit/Stream.hh proto::read_chunked"), ("chunk writer", "include/zenkit/Stream.hh proto::write_chunk")],
     ["sequence of (type, payload) seen by handlers"], ["chunk list"])

# ------------------------------------------------------------------ archives
prop("A01", "Archive entries read back as written in every format",
     "For each of the ASCII, binary and bin-safe archive formats, any sequence of typed entries (strings, integers of each width, floats, booleans, enums, colours, vectors, boxes, matrices, raw bytes) written and then read with the matching calls in the same order returns the same values (strings are one line of text in ASCII and binary archives, floats in ASCII archives have the printed decimals, enums in binary archives 8 bits), no matter how the clock moves while writing. "
     "In the self-describing formats (ASCII and bin-safe), asking for an entry of another type than the one stored, or for more raw bytes than are stored, is reported as an error; archives laid out by other writers (CRLF line ends, indentation, missing date or user, any order of the bin-safe key table) read the same, with the archiver, date and user named in their header.",
     ["inputs", "configurations", "histories"], "all entry sequences × three formats",
     "The tests read two sample files; nothing is written and read back, and no mismatch is tried.",
     ["src/Archive.cc", "src/archive/ArchiveAscii.cc", "src/archive/ArchiveBinary.cc", "src/archive/ArchiveBinsafe.cc"],
     [("typed writers and readers per format", "src/archive/*.cc")], ["values returned by ReadArchive", "archive bytes parsed by the specification"], ["archive token stream"])
prop("A02", "Archive objects nest, and skipping one lands right behind it",
     "Objects written to an archive can be opened, closed and nested to any depth and are read back with the same class name, name (up to 127 characters, no blanks or brackets), version and index in the same nesting; in the self-describing formats a reader that is not at an object's beginning or end is told so and stays where it was. "
     "Skipping an object, from its beginning or from anywhere inside it after having read any part of it, lands exactly behind its end, in every archive format and whatever its entries contain; in an ASCII or binary archive that ends too early, skipping still comes to an end.",
     ["inputs", "histories", "configurations"], "all object nestings × all reading positions × three formats",
     "The sample files are read straight through.",
     ["src/Archive.cc", "src/archive/ArchiveAscii.cc", "src/archive/ArchiveBinary.cc", "src/archive/ArchiveBinsafe.cc"],
     [("object begin/end", "src/archive/*.cc read_object_begin/end, write_object_begin/end"), ("skip", "src/archive/*.cc skip_object")],
     ["read_object_begin/read_object_end results, next entry after skip_object"], ["object stack, position"])
prop("A03", "Archives preserve object identity",
     "When objects that refer to each other are written to one archive and read back, in any format, two references to the same object become two references to one object, references to different objects stay different, and a missing object stays missing; each object is stored once. "
     "The number of objects announced in the archive header equals the number of objects stored.",
     ["inputs", "histories"], "all object graphs (trees, sharing, several references, nulls) × three formats × both games",
     "No test writes an archive with objects at all.",
     ["src/Archive.cc"], [("object cache while writing", "src/Archive.cc WriteArchive::write_object"), ("reference resolution while reading", "src/Archive.cc ReadArchive::read_object")],
     ["pointer identity of the loaded objects"], ["object index table"])

# ------------------------------------------------------------------ daedalus
prop("D01", "The script VM computes what the bytecode says",
     "Executing any well-formed bytecode gives every instruction its defined effect on the operand stack, the variables and the program counter: the arithmetic, bitwise, comparison and logic operators on 32-bit integers (wrapping around, shift counts 0 to 31) with the operand order of the language, the assignments and compound assignments through references (including array elements), and the unconditional and conditional jumps. "
     "Division or remainder by zero, an unknown symbol and a jump outside the code raise a script error and never a crash.",
     ["programs", "inputs"], "all instruction sequences and operand values",
     "The VM is not executed by any test.",
     ["src/DaedalusVm.cc", "include/zenkit/DaedalusVm.hh", "src/DaedalusScript.cc"], [("instruction dispatch", "src/DaedalusVm.cc DaedalusVm::exec"), ("stack", "src/DaedalusVm.cc push_*/pop_*")],
     ["symbol values and return value after call_function"], ["operand stack", "program counter", "symbol values"])
prop("D02", "Script calls pass arguments, return values and restore the caller",
     "A call from the host or from script code delivers each argument to the parameter at its position (an argument naming a variable is read when the callee takes it), and after it returns the caller continues behind the call with its instance context as it was and with exactly one value (or none, for functions without a return value) left on the stack in place of the arguments. "
     "If the function leaves too many values the topmost is returned; if it leaves none, a default value of the declared type (0, 0.0, an empty string or no instance) is supplied; a host call with a wrong number or type of arguments or a wrong return type is refused and leaves the VM as it was.",
     ["programs", "inputs", "histories"], "all call graphs, signatures, and stack-unbalanced callees",
     "The VM is not executed by any test.",
     ["src/DaedalusVm.cc", "include/zenkit/DaedalusVm.hh"], [("call frames", "src/DaedalusVm.cc push_call/pop_call/unsafe_call"), ("host calls", "include/zenkit/DaedalusVm.hh call_function")],
     ["return values, globals, stack probes"], ["call stack", "operand stack", "instance context"])
prop("D03", "Script variable accesses obey const, instance and array rules",
     "A member variable is read and written in the instance that was current when it was referenced; a non-member variable is shared by all. "
     "Writing a numeric or string constant, accessing a member without an instance, an element beyond the array, an instance of a foreign class, or a value of another type raises the corresponding script error and changes nothing; with the compatibility flags, writes to constants succeed, and accesses without an instance read as zero or empty and writes are ignored.",
     ["programs", "configurations"], "all access sequences × flag settings × instance contexts",
     "The VM is not executed by any test.",
     ["src/DaedalusVm.cc", "src/DaedalusScript.cc", "include/zenkit/DaedalusScript.hh"], [("checked symbol accessors", "include/zenkit/DaedalusScript.hh DaedalusSymbol::get_*/set_*"), ("context capture", "src/DaedalusVm.cc push_reference")],
     ["symbol/member values and error class per access"], ["instance contents", "symbol values"])
prop("D04", "Externals and overrides are called exactly like script functions",
     "When script code calls a host function registered for an external or as an override of a script function, the callback receives the arguments in declaration order with the values pushed by the script and its result becomes the call's value; unregistered externals reach the catch-all handler, with the stack fixed up, or raise a script error. "
     "A registration whose return type, parameter count or parameter types differ from the declaration is refused, a later registration replaces an earlier one, and registering for an unknown external is ignored.",
     ["programs", "inputs", "configurations"], "all signatures and call sites",
     "The VM is not executed by any test.",
     ["include/zenkit/DaedalusVm.hh", "src/DaedalusVm.cc"], [("registration checks", "include/zenkit/DaedalusVm.hh register_external/override_function/check_external_params"), ("dispatch", "src/DaedalusVm.cc exec BE/BL")],
     ["arguments seen by the callbacks, results in script variables"], ["operand stack", "callback log"])
prop("D05", "A script error never corrupts the VM",
     "Wherever an error strikes (inside nested script functions, in an external, in an instance initialiser) the chosen strategy is honoured: continue resumes behind the failed instruction, return leaves the current function only, fail reaches the host. "
     "After a failed host call the VM is as usable as before it: call depth, operand stack, current instance and the SELF variable are what they were, and the next call behaves as on a fresh VM with the same variable values.",
     ["programs", "fault_sequences", "histories"], "every error position × every strategy × every later call",
     "The VM is not executed by any test.",
     ["src/DaedalusVm.cc", "include/zenkit/DaedalusVm.hh"], [("exception strategy", "src/DaedalusVm.cc exec catch block"), ("unwinding", "src/DaedalusVm.cc unsafe_call, include/zenkit/DaedalusVm.hh init_instance")],
     ["results of later calls, stack probes, global SELF"], ["call stack", "operand stack", "instance context"])
prop("D06", "Script symbols are found by every key they have",
     "After loading a compiled script, each symbol is found by its index, by its name in any letter case and (functions, instances and prototypes) by its address, the symbol declared last winning where a key occurs repeatedly, and lookups for anything else find nothing; a function's parameters and locals, a class's members and the instances of a class are exactly those the symbol table declares for it, in order. "
     "Initial values, flags, types and instructions are those stored in the file.",
     ["inputs"], "all symbol tables and code blocks",
     "The script tests need game files that are not shipped, so no script is loaded by any test.",
     ["src/DaedalusScript.cc", "include/zenkit/DaedalusScript.hh"], [("symbol loading and indexing", "src/DaedalusScript.cc DaedalusScript::load"), ("lookups", "src/DaedalusScript.cc find_*")],
     ["results of the find_* and accessor calls"], ["symbol table"])
prop("D07", "Recursive script functions keep their own variables when asked to",
     "With function-local storage enabled, every activation of a recursive function (direct or mutual, to any depth) sees its own local variables of every type (not its parameters), and finds them unchanged after an inner activation of the same function has returned; without it, variables are shared between activations. "
     "The function's return value is unaffected by saving and restoring its variables.",
     ["programs", "configurations"], "all recursion patterns, local variable types and return types",
     "The VM is not executed by any test.",
     ["src/DaedalusVm.cc", "src/DaedalusScript.cc"], [("saving locals", "src/DaedalusVm.cc push_local_variables/pop_local_variables")],
     ["return values and variables after recursive calls"], ["operand stack", "local symbols"])

# ------------------------------------------------------------------ model scripts
prop("M01", "Model script sources mean what their grammar says",
     "Any model script text is read as its sequence of declarations regardless of letter case of keywords, white space, comments, parentheses and semicolons: every mesh, animation (with its flags, direction, frames, frame rate and events), alias, blend, combination, disabled animation and tag appears exactly once, in order, with the given values and with the documented defaults for omitted parts. "
     "A missing mandatory part is reported as a syntax error; events without enclosing braces and unterminated strings are accepted as documented.",
     ["inputs"], "all model script texts of the grammar, with all optional parts present or absent",
     "One sample script is read.",
     ["src/ModelScriptDsl.cc", "src/ModelScript.cc"], [("tokenizer", "src/ModelScriptDsl.cc MdsTokenizer::next"), ("parser", "src/ModelScriptDsl.cc MdsParser::*")],
     ["ModelScript contents after load"], ["token stream", "parsed declarations"])
prop("M02", "Compiled model scripts attach each event to its animation",
     "Loading a compiled model script yields every declaration of the file in order with the stored values, each event being attached to the most recent animation that precedes it, whatever other or unknown chunks lie between. "
     "A compiled script and a source script with the same declarations load to the same contents.",
     ["inputs"], "all chunk sequences",
     "One sample script is read.",
     ["src/ModelScript.cc"], [("chunk handlers", "src/ModelScript.cc parse_binary_script")],
     ["ModelScript contents after load"], ["declarations", "current animation"])

# ------------------------------------------------------------------ worlds, saves and other assets
prop("G01", "A save game loads back exactly what was saved",
     "Saving a game state (metadata, global state with missions, info, symbol values, guild attitudes and log, the current world and any worlds visited before) and loading it back, for either game, yields the same state; this also holds when the same object has been loaded or saved before, and after any history of saving over an existing slot, switching the current world and loading again. "
     "A world that was visited before is kept unchanged by later saves that do not replace it.",
     ["histories", "configurations"], "all histories of save / load / change world over several slots, both games",
     "The tests only load fixed samples and never save.",
     ["src/SaveGame.cc", "include/zenkit/SaveGame.hh"], [("slot files", "src/SaveGame.cc SaveGame::load/save/load_world"), ("state serialisation", "src/SaveGame.cc SaveState/SaveMetadata")],
     ["loaded SaveGame contents, files in the slot directory"], ["slot directory", "SaveGame object"])
prop("W01", "World structure survives saving and loading",
     "For any object tree and way-net, in every archive format and for both games, saving and loading preserves the shape of the object tree (parent, order of children, class of every node), the way-points with their attributes, the free/connected distinction and the edges between the same pair of points; a point used by several edges stays one point. "
     "An object of a class that cannot be loaded is left out together with its children and everything else is still loaded.",
     ["inputs", "configurations"], "all trees and graphs up to size × three formats × both games",
     "World tests need game files that are not shipped.",
     ["src/world/VobTree.cc", "src/world/WayNet.cc", "src/World.cc"], [("tree serialisation", "src/world/VobTree.cc"), ("edge list", "src/world/WayNet.cc")],
     ["loaded tree / net"], ["tree", "graph"])
prop("O01", "Every object class saves and loads its fields consistently",
     "For every archivable object class, in both game versions and with and without the save-game flag, the entries written for an object are exactly the entries, in order and type, that reading an object of that class consumes, and every field the format stores has the same value after loading as before saving. "
     "Nothing of one object spills into the next: an object following it in the archive is read correctly.",
     ["inputs", "configurations"], "all classes × both games × save-game flag × field values, including present/absent sub-objects",
     "Most classes are only loaded from one sample each, and none is written.",
     ["src/vobs/*.cc", "src/Material.cc", "src/World.cc", "src/SaveGame.cc"], [("per-class load/save", "src/vobs/*.cc")],
     ["entry sequence seen by a recording archive, fields after load"], ["entry schema per class"])
prop("C01", "Cutscene libraries keep their blocks and find them by name",
     "A cutscene library saved in any archive format loads back with the same blocks and the same messages, sorted by name. "
     "After loading, looking up a name returns the block of exactly that name if there is one and nothing otherwise. Loading a library again, or another one into the same object, replaces the blocks that were there.",
     ["inputs", "histories"], "all libraries and all queried names",
     "The cutscene tests need game files that are not shipped.",
     ["src/CutsceneLibrary.cc"], [("sorted lookup", "src/CutsceneLibrary.cc CutsceneLibrary::block_by_name"), ("load/save", "src/CutsceneLibrary.cc")],
     ["block_by_name results"], ["block list"])
prop("T01", "Textures keep their mipmap chain",
     "A texture saved and loaded again has the same format, size, reference size, average colour, palette and the same bytes in every mipmap level, and level i has the size of the base level halved i times in each direction but never below one pixel. "
     "Building a texture accepts a level only if its byte count matches, and conversions between the uncompressed true-colour formats move each colour channel to its place for every pixel of every level.",
     ["inputs"], "all sizes (including non-square ones), level counts, formats and pixel values",
     "One sample texture is loaded.",
     ["src/Texture.cc", "include/zenkit/Texture.hh"], [("mip sizes", "src/Texture.cc _ztex_mipmap_size"), ("load/save/build", "src/Texture.cc")],
     ["accessors of Texture"], ["mip chain"])
prop("B01", "BSP trees and meshes are reconstructed consistently",
     "Loading a BSP tree yields nodes whose parent, front and back links form one tree in the stored order, with the leaf list naming exactly the leaves and the leaf polygon list holding, sorted, exactly the polygons of those leaves; saving and loading again (both games) reproduces it. Meshes likewise load to exactly what their file holds and survive saving, and the axis-aligned box of an oriented box encloses all of its corners tightly. "
     "Triangulating a mesh against such a list emits, for every listed polygon that is not a portal, ghost occluder or outdoor polygon, the triangles of its fan in order and nothing else.",
     ["inputs", "configurations"], "all trees, polygon assignments and flag combinations",
     "World tests need game files that are not shipped.",
     ["src/world/BspTree.cc", "src/Mesh.cc"], [("recursive node reader", "src/world/BspTree.cc _parse_bsp_nodes"), ("fan unpacking", "src/Mesh.cc Mesh::triangulate")],
     ["nodes, leaf lists, triangle lists"], ["node list"])

prop("X01", "Fonts, model hierarchies and animations are loaded as stored",
     "Loading a font (.FNT), a model hierarchy (.MDH) or a model animation (.MAN) yields exactly what the file holds - every name, number, glyph, node, matrix, event and sample, in order, rotations as unit quaternions and positions scaled as the header says - "
     "whatever the contents (empty or blank names included), wherever in the stream it begins, in whichever order its parts come and whatever unknown chunks or surplus bytes they carry; fonts and hierarchies that are saved and loaded again are the same.",
     ["inputs", "configurations"], "all contents, orders and selections of chunks",
     "The tests load one file of each kind and never look at names, numbers or events that are out of the ordinary.",
     ["src/Font.cc", "src/ModelHierarchy.cc", "src/ModelAnimation.cc"], [("glyph tables", "src/Font.cc Font::load/save"), ("chunks", "src/ModelHierarchy.cc, src/ModelAnimation.cc"), ("samples", "src/ModelAnimation.cc read_sample_quaternion")],
     ["fields of the loaded objects"], ["fonts, hierarchies, animations"])
prop("X02", "Meshes of models survive being loaded and saved",
     "Loading a multi-resolution mesh (.MRM), soft-skin mesh, model mesh (.MDM), model (.MDL) or morph mesh (.MMB) yields exactly what the file holds - positions, normals, every table of every submesh, materials, weights, nodes, boxes, attachments by name, morph targets and animations - "
     "wherever its blocks of data lie and whatever unknown chunks there are, in the versions of both games; saving a mesh, soft-skin mesh, model mesh or model for either game and loading it again yields the same, except for what that game's format cannot hold.",
     ["inputs", "configurations"], "all contents, block layouts and selections of chunks, both games",
     "The tests load a few files and save none.",
     ["src/MultiResolutionMesh.cc", "src/SoftSkinMesh.cc", "src/ModelMesh.cc", "src/Model.cc", "src/MorphMesh.cc"], [("block table", "src/MultiResolutionMesh.cc load_from_section/save_to_section"), ("weights", "src/SoftSkinMesh.cc"), ("attachments", "src/ModelMesh.cc"), ("morphs", "src/MorphMesh.cc")],
     ["fields of the loaded objects"], ["meshes of models"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
