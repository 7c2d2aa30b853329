-------------------------------------------------------- MODULE Bsp --------------------------------------------------------
(* BSP trees and meshes: what they are in memory, how they are laid out in files (chunks), what loading makes of a file, and   *)
(* which triangles a mesh is drawn with. 32-bit values and floats are words <<high, low>>; g is 1 or 2 (the game).            *)
EXTENDS Layout, FiniteSetsExt
VARIABLES tree, tfile, mesh, mfile, wfile
bvars == <<tree, tfile, mesh, mfile, wfile>>

----------------------------------------------------------------------------------------------------------------------------
(* Trees. root: <<>> or <<node>>; front and back of a node likewise. A node is a leaf if it has neither.                      *)
IsLeaf(n) == n.front = <<>> /\ n.back = <<>>
RECURSIVE Size(_)
Size(n) == 1 + (IF n.front = <<>> THEN 0 ELSE Size(n.front[1])) + (IF n.back = <<>> THEN 0 ELSE Size(n.back[1]))

\* The nodes in the order in which they are stored: a node, everything in front of it, everything behind it
RECURSIVE Flatten(_, _, _)
Flatten(n, me, parent) ==
  LET f == IF n.front = <<>> THEN <<>> ELSE Flatten(n.front[1], me + 1, me)
      b == IF n.back = <<>> THEN <<>> ELSE Flatten(n.back[1], me + 1 + Len(f), me)
  IN <<[plane |-> n.plane, bbox |-> n.bbox, pi |-> n.pi, pc |-> n.pc, lod |-> n.lod, parent |-> parent, leaf |-> IsLeaf(n),
        front |-> IF n.front = <<>> THEN -1 ELSE me + 1, back |-> IF n.back = <<>> THEN -1 ELSE me + 1 + Len(f)]>> \o f \o b
Nodes(t) == IF t.root = <<>> THEN <<>> ELSE Flatten(t.root[1], 0, -1)
LeafsOf(nodes) == SelectSeq([i \in 1 .. Len(nodes) |-> i - 1], LAMBDA i : nodes[i + 1].leaf)
RECURSIVE Insert(_, _)
Insert(s, w) == IF s = <<>> THEN <<w>> ELSE IF WordLe(w, s[1]) THEN <<w>> \o s ELSE <<s[1]>> \o Insert(Tail(s), w)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(Tail(s)), Head(s))
\* The polygons of the leaves, in ascending order (once for each leaf they are in)
LeafPolys(nodes, polys) == Sorted(Cat([k \in 1 .. Len(LeafsOf(nodes)) |->
                             LET n == nodes[LeafsOf(nodes)[k] + 1] IN SubSeq(polys, n.pi + 1, n.pi + n.pc)]))

\* What remains of a node in a file: leaves have no plane, and only Gothic 1 knows the detail level of the others
Kept(n, g) == [n EXCEPT !.plane = IF n.leaf THEN Zs(4) ELSE @, !.lod = IF n.leaf \/ g = 2 THEN 0 ELSE @]
NoTree == [mode |-> 0, polys |-> <<>>, leaf_polys |-> <<>>, lights |-> <<>>, sectors |-> <<>>, portals |-> <<>>, nodes |-> <<>>, leafs |-> <<>>]
Made(t) == LET ns == Nodes(t) IN [mode |-> t.mode, polys |-> t.polys, leaf_polys |-> <<>>, lights |-> t.lights, sectors |-> t.sectors, portals |-> t.portals,
                                  nodes |-> ns, leafs |-> LeafsOf(ns)]
\* What a file with the parts ps of tree x (as in memory) loads to
TreeLoaded(x, ps, g) ==
  LET ns == IF "tree" \in ps THEN [i \in 1 .. Len(x.nodes) |-> Kept(x.nodes[i], g)] ELSE <<>>
      pl == IF "polygons" \in ps THEN x.polys ELSE <<>> IN
  [mode |-> IF "header" \in ps THEN x.mode ELSE 0, polys |-> pl, nodes |-> ns, leafs |-> LeafsOf(ns),
   leaf_polys |-> LeafPolys(ns, pl), lights |-> IF "light" \in ps THEN x.lights ELSE <<>>,
   sectors |-> IF "outdoors" \in ps THEN x.sectors ELSE <<>>, portals |-> IF "outdoors" \in ps THEN x.portals ELSE <<>>]
AllOfTree == {"header", "polygons", "tree", "light", "outdoors"}

\* How trees are laid out
NodeBytes(n, ns, g) ==
  Ws(n.bbox) \o U32(n.pi) \o U32(n.pc) \o
  (IF n.leaf THEN <<>>
   ELSE <<(IF n.front = -1 THEN 0 ELSE IF ns[n.front + 1].leaf THEN 5 ELSE 1) + (IF n.back = -1 THEN 0 ELSE IF ns[n.back + 1].leaf THEN 10 ELSE 2)>>
        \o W(n.plane[4]) \o W(n.plane[1]) \o W(n.plane[2]) \o W(n.plane[3]) \o (IF g = 1 THEN <<n.lod>> ELSE <<>>))
SectorBytes(s) == s.name \o <<10>> \o U32(Len(s.nodes)) \o U32(Len(s.portals)) \o Ws(s.nodes) \o Ws(s.portals)
TreePart(x, p, g) ==
  CASE p.k = "header" -> Chunk(49152, U16(2) \o U32(x.mode) \o p.extra)
    [] p.k = "polygons" -> Chunk(49168, U32(Len(x.polys)) \o Ws(x.polys) \o p.extra)
    [] p.k = "tree" -> Chunk(49216, U32(Len(x.nodes)) \o U32(Len(x.leafs)) \o Cat([i \in 1 .. Len(x.nodes) |-> NodeBytes(x.nodes[i], x.nodes, g)]) \o p.extra)
    [] p.k = "light" -> Chunk(49221, CatTo(x.lights, Ws) \o p.extra)
    [] p.k = "outdoors" -> Chunk(49232, U32(Len(x.sectors)) \o CatTo(x.sectors, SectorBytes) \o U32(Len(x.portals)) \o Ws(x.portals) \o p.extra)
    [] p.k = "end" -> Chunk(49407, <<66>> \o p.extra)
    [] p.k = "unknown" -> Chunk(p.id, p.extra)
TreeBytes(x, parts, g) == Cat([i \in 1 .. Len(parts) |-> TreePart(x, parts[i], g)])
PartsIn(parts) == {parts[i].k : i \in 1 .. Len(parts)}

----------------------------------------------------------------------------------------------------------------------------
(* Meshes                                                                                                                    *)
NoTri == [vi |-> <<>>, fi |-> <<>>, m |-> <<>>, lm |-> <<>>, fl |-> <<>>]
NoMesh == [date |-> <<Z, 0, 0, 0, 0, 0>>, name |-> <<>>, bbox |-> Zs(6), obb |-> NoBox, mats |-> <<>>, verts |-> <<>>, feats |-> <<>>, maps |-> <<>>, imgs |-> <<>>,
           polys |-> <<>>, vi |-> <<>>, fi |-> <<>>]

KeptFlags(f, g) == IF g = 1 THEN [f EXCEPT !.relight = 0, !.dynlit = 0] ELSE [f EXCEPT !.lod = 0, !.axis = 0]
\* Polygons as loaded: their indices follow one another
RECURSIVE Offsets(_, _)
Offsets(ps, off) == IF ps = <<>> THEN <<>> ELSE <<off>> \o Offsets(Tail(ps), off + Head(ps).cnt)
Laid(ps, g) == LET o == Offsets(ps, 0) IN [i \in 1 .. Len(ps) |-> [ps[i] EXCEPT !.off = o[i], !.fl = KeptFlags(@, g)]]
Gather(ps, ix) == Cat([i \in 1 .. Len(ps) |-> SubSeq(ix, ps[i].off + 1, ps[i].off + ps[i].cnt)])
\* Images are numbered by the first light map that shows them
RECURSIVE FirstSeen(_, _)
FirstSeen(maps, seen) == IF maps = <<>> THEN seen ELSE FirstSeen(Tail(maps), IF \E i \in 1 .. Len(seen) : seen[i] = Head(maps).img THEN seen ELSE Append(seen, Head(maps).img))
Renumbered(maps) == LET s == FirstSeen(maps, <<>>) IN [i \in 1 .. Len(maps) |-> [maps[i] EXCEPT !.img = CHOOSE k \in 1 .. Len(s) : s[k] = maps[i].img]]
ImagesOf(x) == LET s == FirstSeen(x.maps, <<>>) IN [k \in 1 .. Len(s) |-> x.imgs[s[k]]]
Alone(x) == [x EXCEPT !.maps = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.img = i]], !.imgs = [i \in 1 .. Len(x.maps) |-> x.imgs[x.maps[i].img]]]

MeshLoaded(x0, ps, g) ==
  LET x == IF "own_maps" \in ps THEN Alone(x0) ELSE x0
      P(p, a, b) == IF p \in ps THEN a ELSE b
      lm == ps \cap {"shared_maps", "own_maps"} # {} IN
  [date |-> P("marker", x.date, NoMesh.date), name |-> P("marker", x.name, <<>>), bbox |-> P("bbox", x.bbox, Zs(6)), obb |-> P("bbox", x.obb, NoBox),
   mats |-> P("material", IF g = 1 THEN [i \in 1 .. Len(x.mats) |-> G1Mat(x.mats[i])] ELSE x.mats, <<>>),
   verts |-> P("vertices", x.verts, <<>>), feats |-> P("features", x.feats, <<>>),
   maps |-> IF lm THEN Renumbered(x.maps) ELSE <<>>, imgs |-> IF lm THEN ImagesOf(x) ELSE <<>>,
   polys |-> P("polygons", Laid(x.polys, g), <<>>), vi |-> P("polygons", Gather(x.polys, x.vi), <<>>), fi |-> P("polygons", Gather(x.polys, x.fi), <<>>)]
AllOfMesh == {"marker", "bbox", "material", "shared_maps", "vertices", "features", "polygons"}

\* The triangles of the listed polygons: a fan around the first corner, unless the polygon is a portal, a ghost occluder or outdoors
Drawn(p) == p.cnt >= 3 /\ p.fl.portal = 0 /\ p.fl.ghost = 0 /\ p.fl.outdoor = 0
Fan(p, ix) == Cat([k \in 1 .. p.cnt - 2 |-> <<ix[p.off + 1], ix[p.off + k + 1], ix[p.off + k + 2]>>])
Times(p, v) == [k \in 1 .. p.cnt - 2 |-> v]
Triangles(x, listed) ==
  LET is == SelectSeq([i \in 1 .. Len(x.polys) |-> i], LAMBDA i : NatWord(i - 1) \in listed /\ Drawn(x.polys[i]))
      A(F(_)) == Cat([k \in 1 .. Len(is) |-> F(x.polys[is[k]])]) IN
  [vi |-> A(LAMBDA p : Fan(p, x.vi)), fi |-> A(LAMBDA p : Fan(p, x.fi)), m |-> A(LAMBDA p : Times(p, p.m)), lm |-> A(LAMBDA p : Times(p, p.lm)), fl |-> A(LAMBDA p : Times(p, p.fl))]

\* How meshes are laid out
ImgBytes(i) == <<90, 84, 69, 88>> \o U32(0) \o U32(1) \o U32(i.w) \o U32(i.h) \o U32(1) \o U32(i.w) \o U32(i.h) \o U32(0) \o i.data
FeatBytes(f) == Ws(f.t) \o W(f.l) \o Ws(f.n)
MapBytes(m) == Ws(m.o) \o Ws(m.n)
FlagBytes(f, g) == LET low == f.portal + 4 * f.occluder + 8 * f.sector + 32 * f.outdoor + 64 * f.ghost IN
                   (IF g = 2 THEN <<low + 16 * f.relight + 128 * f.dynlit>> ELSE <<low + 16 * f.lod + 128 * (f.axis % 2), f.axis \div 2>>) \o U16(f.index)
PolyBytes(x, p, g, wide) == U16(p.m) \o U16(p.lm) \o W(p.d) \o Ws(p.n) \o FlagBytes(p.fl, g) \o <<p.cnt>>
                            \o Cat([k \in 1 .. p.cnt |-> (IF wide \/ g = 2 THEN W(x.vi[p.off + k]) ELSE U16(x.vi[p.off + k][2])) \o W(x.fi[p.off + k])])
MeshPart(x, p, g, wide) ==
  CASE p.k = "marker" -> Chunk(45056, U16(IF g = 1 THEN 9 ELSE 265) \o W(x.date[1]) \o CatTo(SubSeq(x.date, 2, 6), U16) \o U16(0) \o x.name \o <<10>> \o p.extra)
    [] p.k = "bbox" -> Chunk(45072, Ws(x.bbox) \o BoxBytes(x.obb) \o p.extra)
    [] p.k = "own_maps" -> Chunk(45093, U32(Len(x.maps)) \o CatTo(x.maps, LAMBDA m : MapBytes(m) \o ImgBytes(x.imgs[m.img])) \o p.extra)
    [] p.k = "shared_maps" -> Chunk(45094, U32(Len(x.imgs)) \o CatTo(x.imgs, ImgBytes) \o U32(Len(x.maps)) \o CatTo(x.maps, LAMBDA m : MapBytes(m) \o U32(m.img - 1)) \o p.extra)
    [] p.k = "vertices" -> Chunk(45104, U32(Len(x.verts)) \o CatTo(x.verts, Ws) \o p.extra)
    [] p.k = "features" -> Chunk(45120, U32(Len(x.feats)) \o CatTo(x.feats, FeatBytes) \o p.extra)
    [] p.k = "polygons" -> Chunk(45136, U32(Len(x.polys)) \o CatTo(x.polys, LAMBDA q : PolyBytes(x, q, g, wide)) \o p.extra)
    [] p.k = "end" -> Chunk(45152, p.extra)
    [] p.k = "unknown" -> Chunk(p.id, p.extra)
MeshBytes(x, parts, g, wide) == Cat([i \in 1 .. Len(parts) |-> MeshPart(x, parts[i], g, wide)])

----------------------------------------------------------------------------------------------------------------------------
(* Oriented boxes with integer coordinates: the smallest axis-aligned box around their eight corners                          *)
Abs(n) == IF n < 0 THEN -n ELSE n
Reach(a, h, d) == LET S(i) == Abs(a[3 * (i - 1) + d] * h[i]) IN S(1) + S(2) + S(3)
BoxMin(c, a, h) == [d \in 1 .. 3 |-> c[d] - Reach(a, h, d)]
BoxMax(c, a, h) == [d \in 1 .. 3 |-> c[d] + Reach(a, h, d)]

----------------------------------------------------------------------------------------------------------------------------
(* Behaviour. A file is [x |-> contents, ps |-> the parts that are there, g |-> game, wide |-> wide indices, ended |-> has an end] *)
BInit == tree = NoTree /\ mesh = NoMesh /\ tfile = <<>> /\ mfile = <<>> /\ wfile = <<>>
TreeSet(t) == tree' = Made(t) /\ UNCHANGED <<tfile, mesh, mfile, wfile>>
TreeSave(g) == tfile' = <<[x |-> tree, ps |-> AllOfTree, g |-> g, wide |-> FALSE]>> /\ UNCHANGED <<tree, mesh, mfile, wfile>>
TreeFile(t, parts, g) == tfile' = <<[x |-> Made(t), ps |-> PartsIn(parts), g |-> g, wide |-> FALSE]>> /\ UNCHANGED <<tree, mesh, mfile, wfile>>
TreeLoad == tfile # <<>> /\ tree' = TreeLoaded(tfile[1].x, tfile[1].ps, tfile[1].g) /\ UNCHANGED <<tfile, mesh, mfile, wfile>>
MeshSet(m) == mesh' = m /\ UNCHANGED <<tfile, tree, mfile, wfile>>
MeshSave(g) == mfile' = <<[x |-> mesh, ps |-> AllOfMesh, g |-> g, wide |-> FALSE]>> /\ UNCHANGED <<tree, tfile, mesh, wfile>>
MeshFile(m, parts, g, wide) == mfile' = <<[x |-> m, ps |-> PartsIn(parts), g |-> g, wide |-> wide]>> /\ UNCHANGED <<tree, mesh, tfile, wfile>>
MeshLoad == mfile # <<>> /\ mesh' = MeshLoaded(mfile[1].x, mfile[1].ps, mfile[1].g) /\ UNCHANGED <<tfile, tree, mfile, wfile>>
WorldSave(g) == wfile' = <<[m |-> MeshLoaded(mesh, AllOfMesh, g), t |-> TreeLoaded(tree, AllOfTree, g), g |-> g]>> /\ UNCHANGED <<tree, tfile, mesh, mfile>>
WorldFile == wfile' = <<[m |-> MeshLoaded(mfile[1].x, mfile[1].ps, mfile[1].g), t |-> TreeLoaded(tfile[1].x, tfile[1].ps, tfile[1].g), g |-> tfile[1].g]>>
             /\ UNCHANGED <<tree, tfile, mesh, mfile>>
============================================================================================================================
