------------------------------------------------------- MODULE MC_Bsp ------------------------------------------------------
(* All small trees (shapes, polygon ranges) and all short histories of making, saving, composing and loading them; all small  *)
(* meshes (corner counts, flags) and lists of polygons.                                                                       *)
EXTENDS Bsp, Json, TLC
CONSTANTS MaxNodes, MaxLen, Kind, Emitting
VARIABLE hist
mvars == <<bvars, hist>>

Polys == <<<<0, 7>>, <<0, 2>>, <<1, 0>>>>
N0(f, b, pi, pc) == [front |-> f, back |-> b, pi |-> pi, pc |-> pc, lod |-> 3, plane |-> [i \in 1 .. 4 |-> <<i, pc>>], bbox |-> [i \in 1 .. 6 |-> <<i, pi>>]]
Ranges == IF MaxNodes > 4 THEN {<<1, 2>>} ELSE {<<0, 0>>, <<0, 3>>, <<2, 1>>}
RECURSIVE Shapes(_)
Shapes(n) ==
  IF n = 1 THEN {N0(<<>>, <<>>, r[1], r[2]) : r \in Ranges}
  ELSE {N0(<<s>>, <<>>, 0, 3) : s \in Shapes(n - 1)} \cup {N0(<<>>, <<s>>, 1, 1) : s \in Shapes(n - 1)}
       \cup UNION {{N0(<<s>>, <<u>>, 0, 2) : s \in Shapes(k), u \in Shapes(n - 1 - k)} : k \in 1 .. n - 2}
Trees == {[mode |-> m, root |-> r, polys |-> Polys, lights |-> <<>>, sectors |-> <<>>, portals |-> <<<<0, 1>>>>] :
          m \in {1}, r \in {<<>>} \cup {<<s>> : s \in UNION {Shapes(n) : n \in 1 .. MaxNodes}}}
Part(k) == [k |-> k, extra |-> <<>>, id |-> 0]
Layouts == {<<Part("header"), Part("polygons"), Part("tree"), Part("outdoors"), Part("end")>>, <<Part("polygons"), Part("tree"), Part("end")>>, <<Part("end")>>}

Log(r) == hist' = Append(hist, r)
Ends == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
TreeNext ==
  \/ Ends \notin {"tree_set", "tree_file"} /\ \E t \in Trees : TreeSet(t) /\ Log([op |-> "tree_set", t |-> t])
  \/ hist # <<>> /\ Ends # "tree_file" /\ \E g \in {1, 2} : TreeSave(g) /\ Log([op |-> "tree_save", v |-> g])
  \/ Ends \notin {"tree_set", "tree_file"} /\ \E t \in Trees, p \in Layouts, g \in {1, 2} : TreeFile(t, p, g) /\ Log([op |-> "tree_file", t |-> t, parts |-> p, v |-> g])
  \/ TreeLoad /\ Ends # "tree_load" /\ Log([op |-> "tree_load", v |-> tfile[1].g])

Flags == {[portal |-> p, occluder |-> o, sector |-> 0, relight |-> 1, outdoor |-> u, ghost |-> h, dynlit |-> 1, index |-> 5, lod |-> 1, axis |-> 2] :
          p \in {0, 1, 2}, u \in {0, 1}, h \in {0, 1}, o \in {0, 1}}
Some == {f \in Flags : f.portal + f.outdoor + f.ghost <= 1}
Poly(c, o, f) == [m |-> c, lm |-> -1, d |-> Z, n |-> Zs(3), fl |-> f, cnt |-> c, off |-> o]
Ix(k) == [i \in 1 .. 5 |-> <<k, i>>]
Meshes == {[NoMesh EXCEPT !.vi = Ix(0), !.fi = Ix(1), !.polys = ps] :
           ps \in {<<>>} \cup {<<Poly(c, 5 - c, f)>> : c \in 0 .. 5, f \in Flags} \cup {<<Poly(c, 0, f), Poly(d, 5 - d, h)>> : c \in {2, 3, 5}, d \in {3, 4}, f \in Some, h \in {f1 \in Some : f1.occluder = 0}}}
MeshNext ==
  \/ hist = <<>> /\ \E m \in Meshes : MeshSet(m) /\ Log([op |-> "mesh_set", m |-> m])
  \/ Ends \in {"mesh_set", "mesh_load"} /\ \E g \in {1, 2} : MeshSave(g) /\ Log([op |-> "mesh_save", v |-> g])
  \/ MeshLoad /\ Ends # "mesh_load" /\ \E s \in SUBSET {Z, <<0, 1>>, <<0, 2>>} : Log([op |-> "mesh_load", listed |-> s])

MCInit == BInit /\ hist = <<>>
MCNext == IF Kind = "tree" THEN TreeNext ELSE MeshNext
MCSpec == MCInit /\ [][Len(hist) < MaxLen /\ MCNext]_mvars
Emit == Emitting => PrintT("SCN" \o ToJson(hist'))

\* Links form one tree in the stored order
Linked == LET ns == tree.nodes IN \A i \in 1 .. Len(ns) :
  /\ i = 1 => ns[i].parent = -1
  /\ i > 1 => LET p == ns[i].parent + 1 IN p \in 1 .. i - 1 /\ (ns[p].front = i - 1) # (ns[p].back = i - 1)
  /\ ns[i].front # -1 => ns[i].front = i /\ ns[ns[i].front + 1].parent = i - 1
  /\ ns[i].back # -1 => ns[i].back > i - 1 /\ ns[ns[i].back + 1].parent = i - 1 /\ (ns[i].front # -1 => ns[i].front < ns[i].back)
\* The leaf list names exactly the leaves, in order; the polygons of leaves are sorted and exactly those
Leaves == /\ \A i \in 1 .. Len(tree.nodes) : (\E k \in 1 .. Len(tree.leafs) : tree.leafs[k] = i - 1) = (tree.nodes[i].front = -1 /\ tree.nodes[i].back = -1)
          /\ \A k \in 1 .. Len(tree.leafs) - 1 : tree.leafs[k] < tree.leafs[k + 1]
          /\ \A k \in 1 .. Len(tree.leaf_polys) - 1 : WordLe(tree.leaf_polys[k], tree.leaf_polys[k + 1])
          /\ Ends = "tree_load" => \A w \in {Polys[i] : i \in 1 .. 3} :
               Cardinality({k \in 1 .. Len(tree.leaf_polys) : tree.leaf_polys[k] = w})
               = Cardinality({<<i, j>> \in (1 .. Len(tree.leafs)) \X (1 .. 3) : LET n == tree.nodes[tree.leafs[i] + 1] IN j > n.pi /\ j <= n.pi + n.pc /\ tree.polys[j] = w})
\* The layout can be read back: a reader that follows the flags of each node finds the same nodes
RECURSIVE Read(_, _, _, _, _)
Read(b, off, leaf, g, st) ==         \* st: nodes so far; the result is [ns, off]
  LET bb == [i \in 1 .. 6 |-> WordAt(b, off + 4 * (i - 1))] pi == WordNat(WordAt(b, off + 24)) pc == WordNat(WordAt(b, off + 28))
      me == Len(st) + 1 IN
  IF leaf THEN [ns |-> Append(st, [bbox |-> bb, pi |-> pi, pc |-> pc, leaf |-> TRUE, plane |-> Zs(4), lod |-> 0]), off |-> off + 32]
  ELSE LET fl == ByteAt(b, off + 32) P(i) == WordAt(b, off + 33 + 4 * i)
           st1 == Append(st, [bbox |-> bb, pi |-> pi, pc |-> pc, leaf |-> FALSE, plane |-> <<P(1), P(2), P(3), P(0)>>, lod |-> IF g = 1 THEN ByteAt(b, off + 49) ELSE 0])
           o1 == off + 49 + (IF g = 1 THEN 1 ELSE 0)
           f == IF Bit(fl, 1) = 1 THEN Read(b, o1, Bit(fl, 4) = 1, g, st1) ELSE [ns |-> st1, off |-> o1]
       IN IF Bit(fl, 2) = 1 THEN Read(b, f.off, Bit(fl, 8) = 1, g, f.ns) ELSE f
Pick(n) == [bbox |-> n.bbox, pi |-> n.pi, pc |-> n.pc, leaf |-> n.leaf, plane |-> n.plane, lod |-> n.lod]
Readable == Ends = "tree_save" /\ tree.nodes # <<>> =>
  LET g == tfile[1].g ns == tree.nodes b == Cat([i \in 1 .. Len(ns) |-> NodeBytes(ns[i], ns, g)]) r == Read(b, 0, Len(ns) = 1, g, <<>>) IN
  /\ r.off = Len(b) /\ Len(r.ns) = Len(ns) /\ \A i \in 1 .. Len(ns) : r.ns[i] = Pick(Kept(ns[i], g))
\* Loading what was saved after loading changes nothing more
Stable == [][ hist'[Len(hist')].op = "tree_load" /\ Len(hist) >= 2 /\ Ends = "tree_save" /\ hist[Len(hist) - 1].op = "tree_load" /\ hist[Len(hist) - 1].v = tfile[1].g => tree' = tree ]_mvars
\* Triangles: as many as the corners beyond two of the drawn ones, each around the first corner of its polygon, in the order of the polygons
Fans == Ends = "mesh_load" =>
  LET s == hist[Len(hist)].listed t == Triangles(mesh, s)
      ds == {i \in 1 .. Len(mesh.polys) : NatWord(i - 1) \in s /\ Drawn(mesh.polys[i])}
      n == FoldSet(LAMBDA i, a : a + mesh.polys[i].cnt - 2, 0, ds) IN
  /\ Len(t.m) = n /\ Len(t.lm) = n /\ Len(t.fl) = n /\ Len(t.vi) = 3 * n /\ Len(t.fi) = 3 * n
  /\ \A k \in 1 .. n : t.fl[k].portal = 0 /\ t.fl[k].ghost = 0 /\ t.fl[k].outdoor = 0
  /\ \A i \in ds : \A j \in 3 .. mesh.polys[i].cnt : \E k \in 1 .. n :
       LET p == mesh.polys[i] IN SubSeq(t.vi, 3 * k - 2, 3 * k) = <<mesh.vi[p.off + 1], mesh.vi[p.off + j - 1], mesh.vi[p.off + j]>>
============================================================================================================================
