------------------------------------------------------- MODULE Model -------------------------------------------------------
(* Fonts, hierarchies, animations and meshes of models: what they are in memory, how they are laid out in files, and what      *)
(* loading makes of a file. Kinds: font, hier (hierarchy), anim (animation), mrm (multi-resolution mesh), skin (soft-skin      *)
(* mesh), mmesh (model mesh), model (hierarchy and model mesh), morph (morph mesh). Floats and 32-bit numbers are words.       *)
EXTENDS Layout
VARIABLES obj,    \* <<>> or <<contents>>: what is in memory
          file    \* <<>> or <<[k, x, ps, g]>>: contents, the parts that are there, the game
xvars == <<obj, file>>

Line(s) == s \o <<10>>
B16(s) == CatTo(s, U16)
NoDate == <<Z, 0, 0, 0, 0, 0>>
Has(ps, p, a, b) == IF p \in ps THEN a ELSE b

----------------------------------------------------------------------------------------------------------------------------
(* Fonts *)
FontBytes(x) == <<49, 10>> \o Line(x.name) \o W(x.height) \o U32(Len(x.glyphs)) \o [i \in 1 .. Len(x.glyphs) |-> x.glyphs[i].w]
                \o CatTo(x.glyphs, LAMBDA g : Ws(SubSeq(g.uv, 1, 2))) \o CatTo(x.glyphs, LAMBDA g : Ws(SubSeq(g.uv, 3, 4)))

(* Hierarchies. Matrices are kept by columns and stored by rows *)
ByRows(m) == [i \in 1 .. 16 |-> m[4 * ((i - 1) % 4) + ((i - 1) \div 4) + 1]]
HierPart(x, p) ==
  CASE p.k = "hierarchy" -> Chunk(53504, U32(p.ver) \o U16(Len(x.nodes)) \o CatTo(x.nodes, LAMBDA n : Line(n.name) \o U16(n.parent) \o Ws(ByRows(n.m)))
                                         \o Ws(x.bbox) \o Ws(x.cbox) \o Ws(x.root) \o W(x.sum) \o p.extra)
    [] p.k = "source" -> Chunk(53520, DateBytes(x.date) \o Line(x.path) \o p.extra)
    [] p.k = "end" -> Chunk(53536, p.extra)
    [] p.k = "unknown" -> Chunk(p.id, p.extra)
HierLoaded(x, ps) ==
  LET H(a, b) == Has(ps, "hierarchy", a, b) S(a, b) == Has(ps, "source", a, b) IN
  [nodes |-> H(x.nodes, <<>>), bbox |-> H(x.bbox, Zs(6)), cbox |-> H(x.cbox, Zs(6)), root |-> H(x.root, Zs(3)), sum |-> H(x.sum, Z),
   date |-> S(x.date, NoDate), path |-> S(x.path, <<>>)]

(* Animations. A sample is stored as six 16-bit numbers r: three for the rotation, three for the position. Positions are counted in 64ths here,     *)
(* so that min and scale are whole numbers; rotations in ten thousandths.                                                     *)
F64(n) == \* the bits of n / 64 as a float, |n| < 2^16
  LET a == IF n < 0 THEN -n ELSE n
      RECURSIVE Top(_) Top(m) == IF m < 2 THEN 0 ELSE 1 + Top(m \div 2)
      e == Top(a)  frac == (a - 2 ^ e) * 2 ^ (23 - e) IN
  IF n = 0 THEN Z ELSE <<(IF n < 0 THEN 32768 ELSE 0) + (127 + e - 6) * 128 + (frac \div 65536), frac % 65536>>
AnimPart(x, p) ==
  CASE p.k = "marker" -> Chunk(40960, p.extra)
    [] p.k = "source" -> Chunk(40976, DateBytes(x.date) \o Line(x.path) \o Line(x.script) \o p.extra)
    [] p.k = "header" -> Chunk(40992, U16(p.ver) \o Line(x.name) \o W(x.layer) \o U32(x.frames) \o U32(x.nodes) \o W(x.fps) \o W(x.fpss) \o W(F64(x.min)) \o W(F64(x.scale))
                                      \o Ws(x.bbox) \o Line(x.next) \o p.extra)
    [] p.k = "events" -> Chunk(41008, U32(Len(x.events)) \o CatTo(x.events, LAMBDA e : W(e.type) \o W(e.frame) \o Line(e.tag) \o CatTo(e.text, Line) \o Ws(e.vals) \o W(e.prob)) \o p.extra)
    [] p.k = "samples" -> Chunk(41104, W(x.sum) \o Ws(x.idx) \o CatTo(x.samples, B16) \o p.extra)
    [] p.k = "unknown" -> Chunk(p.id, p.extra)
\* the samples come after the header, if there is one
AnimLoaded(x, ps) ==
  LET H(a, b) == Has(ps, "header", a, b) S(a, b) == Has(ps, "source", a, b) T(a, b) == IF {"header", "samples"} \subseteq ps THEN a ELSE b IN
  [name |-> H(x.name, <<>>), next |-> H(x.next, <<>>), layer |-> H(x.layer, Z), frames |-> H(x.frames, 0), nodes |-> H(x.nodes, 0), fps |-> H(x.fps, Z), fpss |-> H(x.fpss, Z),
   min |-> H(x.min, 0), scale |-> H(x.scale, 0), bbox |-> H(x.bbox, Zs(6)), sum |-> Has(ps, "samples", x.sum, Z), path |-> S(x.path, <<>>), date |-> S(x.date, NoDate), script |-> S(x.script, <<>>),
   samples |-> T(x.samples, <<>>), events |-> Has(ps, "events", x.events, <<>>), idx |-> T(x.idx, <<>>)]
Abs(n) == IF n < 0 THEN -n ELSE n
Near(a, b, d) == Abs(a - b) <= d
Sq(n) == n * n
\* the rotation q read from raw numbers r: each component is (r - 32767) * 2.1 / 65535; w makes it a unit quaternion; if they are too long, they are shortened and w is zero
Rotation(q, r) ==
  LET u == [i \in 1 .. 3 |-> ((r[i] - 32767) * 21000) \div 65535]
      len == Sq(u[1] \div 2) + Sq(u[2] \div 2) + Sq(u[3] \div 2) IN     \* of the halves, so that it stays below 2^31
  IF len > 25000000
  THEN /\ q[4] = 0 /\ Near(Sq(q[1]) + Sq(q[2]) + Sq(q[3]), 100000000, 60000)
       /\ \A i \in 1 .. 3 : u[i] = 0 \/ Abs(q[i]) <= 2 \/ (q[i] > 0) = (u[i] > 0)
       /\ \A i, j \in 1 .. 3 : Near(q[i] * u[j], q[j] * u[i], 100000)
  ELSE /\ \A i \in 1 .. 3 : Near(q[i], u[i], 1)
       /\ q[4] >= 0 /\ Near(Sq(q[1]) + Sq(q[2]) + Sq(q[3]) + Sq(q[4]), 100000000, 60000)
Sample(x, s, r) == Rotation(s.q, r) /\ \A i \in 1 .. 3 : s.p[i] = r[i + 3] * x.scale + x.min
IsAnim(x, y) == /\ \A f \in DOMAIN x \ {"samples"} : x[f] = y[f]
                /\ Len(x.samples) = Len(y.samples) /\ \A i \in 1 .. Len(x.samples) : Sample(x, y.samples[i], x.samples[i])

----------------------------------------------------------------------------------------------------------------------------
(* Multi-resolution meshes. In files of ours, the blocks of data lie in the order lay.order, with lay.gaps between them:       *)
(* 1 positions, 2 normals, then for each submesh triangles, wedges, colours, plane indices, planes, wedge map, (updates), triangle edges, edges, scores *)
Block(x, b) ==
  IF b = 1 THEN CatTo(x.pos, Ws) ELSE IF b = 2 THEN CatTo(x.nor, Ws)
  ELSE LET s == x.subs[((b - 3) \div 10) + 1] k == ((b - 3) % 10) + 1 IN
    CASE k = 1 -> CatTo(s.tri, B16)
      [] k = 2 -> CatTo(s.wedges, LAMBDA w : Ws(w.n) \o Ws(w.t) \o U16(w.i) \o U16(x.lay.junk))
      [] k = 3 -> Ws(s.colors) [] k = 4 -> B16(s.tpi) [] k = 5 -> CatTo(s.planes, Ws) [] k = 6 -> B16(s.wmap)
      [] k = 7 -> B16(x.lay.updates)
      [] k = 8 -> CatTo(s.tedges, B16) [] k = 9 -> CatTo(s.edges, B16) [] k = 10 -> Ws(s.scores)
Count(x, b) ==
  IF b = 1 THEN Len(x.pos) ELSE IF b = 2 THEN Len(x.nor)
  ELSE LET s == x.subs[((b - 3) \div 10) + 1] k == ((b - 3) % 10) + 1 IN
    CASE k = 1 -> Len(s.tri) [] k = 2 -> Len(s.wedges) [] k = 3 -> Len(s.colors) [] k = 4 -> Len(s.tpi) [] k = 5 -> Len(s.planes)
      [] k = 6 -> Len(s.wmap) [] k = 7 -> Len(x.lay.updates) [] k = 8 -> Len(s.tedges) [] k = 9 -> Len(s.edges) [] k = 10 -> Len(s.scores)
Gap(n) == [i \in 1 .. n |-> 221]
\* content and the offset of each block
RECURSIVE Lay(_, _, _, _)
Lay(x, i, out, at) == IF i > Len(x.lay.order) THEN <<out \o Gap(x.lay.tail), at>>
                      ELSE LET o == out \o Gap(x.lay.gaps[i]) IN Lay(x, i + 1, o \o Block(x, x.lay.order[i]), [at EXCEPT ![x.lay.order[i]] = Len(o)])
Cstr(s) == s \o <<0>>
Bl(b) == IF b THEN <<1>> ELSE <<0>>
En(w) == <<w[2] % 256>>
\* A material: its name, then an object of class zCMaterial
MatBody(m, g) ==
  Cstr(m.name) \o En(m.group) \o <<m.color[3], m.color[2], m.color[1], m.color[4]>> \o W(m.smooth_angle) \o Cstr(m.texture) \o Cstr(m.scale_txt) \o W(m.texture_anim_fps)
  \o En(m.texture_anim_map_mode) \o Cstr(m.dir_txt) \o Bl(m.disable_collision) \o Bl(m.disable_lightmap) \o Bl(m.dont_collapse) \o Cstr(m.detail_object)
  \o (IF g = 1 THEN <<>> ELSE W(m.detail_object_scale) \o Bl(m.force_occluder) \o Bl(m.environment_mapping) \o W(m.environment_mapping_strength) \o En(m.wave_mode) \o En(m.wave_speed)
                              \o W(m.wave_max_amplitude) \o W(m.wave_grid_size) \o Bl(m.ignore_sun) \o En(m.alpha_func))
  \o Ws(m.default_mapping)
MatBytes(m, g, i, extra) == LET body == U16(IF g = 1 THEN 17408 ELSE 39939) \o U32(i) \o <<37, 0>> \o Cstr(<<122, 67, 77, 97, 116, 101, 114, 105, 97, 108>>) \o MatBody(m, g) \o extra
                            IN Cstr(m.name) \o U32(Len(body) + 4) \o body
MrmBytes(x) ==
  LET c == Lay(x, 1, <<>>, [b \in 1 .. 2 + 10 * Len(x.subs) |-> 0])
      Place(b) == U32(c[2][b]) \o U32(Count(x, b)) IN
  U16(x.lay.ver) \o U32(Len(c[1])) \o c[1] \o <<Len(x.subs)>> \o CatTo([b \in 1 .. 2 + 10 * Len(x.subs) |-> b], Place)
  \o x.lay.head \o Cat([i \in 1 .. Len(x.subs) |-> MatBytes(x.subs[i].mat, x.lay.mg, i - 1, x.lay.mextra)])
  \o (IF x.lay.ver = 773 THEN <<>> ELSE <<x.alpha>>) \o Ws(x.bbox) \o BoxBytes(x.obb) \o Gap(16)
\* what is kept: g the game of the materials, al whether the file says if there is alpha
Plain(m) == [f \in DOMAIN m \ {"scale_txt", "dir_txt"} |-> m[f]]
SubKept(s, g) == [f \in DOMAIN s |-> IF f = "mat" THEN (IF g = 1 THEN G1Mat(Plain(s.mat)) ELSE Plain(s.mat)) ELSE s[f]]
Kept(x, g, al) == LET ss == [i \in 1 .. Len(x.subs) |-> SubKept(x.subs[i], g)] IN
  [pos |-> x.pos, nor |-> x.nor, subs |-> ss, mats |-> [i \in 1 .. Len(ss) |-> ss[i].mat], alpha |-> IF al THEN (IF x.alpha = 0 THEN 0 ELSE 1) ELSE 1, bbox |-> x.bbox, obb |-> x.obb]
NoMrm == [pos |-> <<>>, nor |-> <<>>, subs |-> <<>>, mats |-> <<>>, alpha |-> 1, bbox |-> Zs(6), obb |-> NoBox]
\* a mesh out of a file of ours carries its layout; one that was saved does not
MrmLoaded(x, g) == IF "lay" \in DOMAIN x THEN Kept(x, x.lay.mg, x.lay.ver # 773) ELSE Kept(x, g, g = 2)
MrmPart(x, p) == CASE p.k = "mesh" -> Chunk(45312, MrmBytes(x) \o p.extra) [] p.k = "end" -> Chunk(45567, p.extra) [] p.k = "unknown" -> Chunk(p.id, p.extra)

(* Soft-skin meshes: one list of weights for each position *)
WeightBytes(w) == U32(Len(w)) \o CatTo(w, LAMBDA e : W(e.w) \o Ws(e.p) \o <<e.n>>)
SkinPart(x, p) ==
  CASE p.k = "header" -> Chunk(57600, U32(p.ver) \o p.extra)
    [] p.k = "proto" -> Chunk(45312, MrmBytes(x.mesh) \o p.extra)
    [] p.k = "nodes" -> Chunk(45567, LET w == CatTo(x.weights, WeightBytes) \o p.slack IN
                              U32(Len(w)) \o w \o U32(Len(x.wn)) \o CatTo(x.wn, LAMBDA n : Ws(n.n) \o W(n.i)) \o U16(Len(x.nodes)) \o Ws(x.nodes) \o CatTo(x.boxes, BoxBytes) \o p.extra)
    [] p.k = "end" -> Chunk(57616, p.extra)
    [] p.k = "unknown" -> Chunk(p.id, p.extra)
SkinLoaded(x, ps, g) ==
  LET N(a, b) == Has(ps, "nodes", a, b) IN
  [mesh |-> Has(ps, "proto", MrmLoaded(x.mesh, g), NoMrm), boxes |-> N(x.boxes, <<>>), wn |-> N(x.wn, <<>>), weights |-> N(x.weights, <<>>), nodes |-> N(x.nodes, <<>>)]
AllOfSkin == {"header", "proto", "nodes", "end"}
SkinBytes(x) == Cat([i \in 1 .. Len(x.parts) |-> SkinPart(x, x.parts[i])])

(* Model meshes: attachments have names (here: sorted); x.order is the order in which they are stored. The soft-skin meshes may lie outside of their chunk *)
MeshPart(x, p) ==
  CASE p.k = "header" -> Chunk(53248, U32(p.ver) \o p.extra)
    [] p.k = "source" -> Chunk(53264, DateBytes(p.date) \o Line(p.path) \o p.extra)
    [] p.k = "nodes" -> Chunk(53280, U16(Len(x.atts)) \o Cat([i \in 1 .. Len(x.atts) |-> Line(x.atts[x.order[i]].name)]) \o p.extra)
    [] p.k = "proto" -> Chunk(45312, MrmBytes(x.atts[x.order[p.i]].mesh) \o p.extra)
    [] p.k = "skins" -> LET h == W(x.sum) \o U16(Len(x.skins)) b == CatTo(x.skins, SkinBytes) IN U16(53296) \o U32(Len(h) + (IF p.inside THEN Len(b) ELSE 0)) \o h \o b
    [] p.k = "end" -> Chunk(53312, p.extra)
    [] p.k = "unknown" -> Chunk(p.id, p.extra)
MeshLoaded(x, ps, g) ==
  [sum |-> Has(ps, "skins", x.sum, Z), skins |-> Has(ps, "skins", [i \in 1 .. Len(x.skins) |-> SkinLoaded(x.skins[i], AllOfSkin, g)], <<>>),
   atts |-> IF "proto" \in ps THEN [i \in 1 .. Len(x.atts) |-> [name |-> x.atts[i].name, mesh |-> MrmLoaded(x.atts[i].mesh, g)]] ELSE <<>>]

(* Morph meshes *)
MorphPart(x, p) ==
  CASE p.k = "sources" -> Chunk(57360, U16(Len(x.sources)) \o CatTo(x.sources, LAMBDA s : DateBytes(s.date) \o Line(s.name)) \o p.extra)
    [] p.k = "header" -> Chunk(57376, U32(p.ver) \o Line(x.name) \o p.extra)
    [] p.k = "proto" -> Chunk(45312, MrmBytes(x.mesh) \o p.extra)
    [] p.k = "morph" -> Chunk(45567, CatTo(x.mpos, Ws) \o p.extra)
    [] p.k = "anims" -> Chunk(57392, U16(Len(x.anims)) \o CatTo(x.anims, LAMBDA a : Line(a.name) \o W(a.t[1]) \o W(a.t[2]) \o W(a.t[3]) \o W(a.layer) \o W(a.t[4]) \o <<a.flags>>
                                      \o U32(Len(a.verts)) \o U32(a.frames) \o Ws(a.verts) \o CatTo(a.samples, Ws)) \o p.extra)
    [] p.k = "unknown" -> Chunk(p.id, p.extra)
\* positions come before what they are morphed to
MorphLoaded(x, ps) ==
  [name |-> Has(ps, "header", x.name, <<>>), mesh |-> Has(ps, "proto", MrmLoaded(x.mesh, 2), NoMrm),
   mpos |-> IF "proto" \notin ps THEN <<>> ELSE Has(ps, "morph", x.mpos, [i \in 1 .. Len(x.mesh.pos) |-> Zs(3)]),
   sources |-> Has(ps, "sources", x.sources, <<>>), anims |-> Has(ps, "anims", x.anims, <<>>)]

----------------------------------------------------------------------------------------------------------------------------
(* All of them *)
Parts(x, ps, F(_, _)) == Cat([i \in 1 .. Len(ps) |-> F(x, ps[i])])
FileBytes(k, x, ps) ==
  CASE k = "font" -> FontBytes(x)
    [] k = "hier" -> Parts(x, ps, HierPart)
    [] k = "anim" -> Parts(x, ps, AnimPart)
    [] k = "mrm" -> Parts(x, ps, MrmPart)
    [] k = "skin" -> SkinBytes(x)
    [] k = "mmesh" -> Parts(x, ps, MeshPart)
    [] k = "morph" -> Parts(x, ps, MorphPart)
    [] k = "model" -> Parts(x.hier, ps.hier, HierPart) \o Parts(x.mesh, ps.mesh, MeshPart)
Names(ps) == {ps[i].k : i \in 1 .. Len(ps)}
PartNames(k, x, ps) == IF k = "skin" THEN Names(x.parts) ELSE IF k = "model" THEN {} ELSE Names(ps)
All == [font |-> {}, hier |-> {"hierarchy", "source", "end"}, mrm |-> {"mesh", "end"}, skin |-> AllOfSkin, mmesh |-> {"header", "nodes", "proto", "skins", "end"}, model |-> {}]
Loaded(k, x, ps, g) ==
  CASE k = "font" -> x
    [] k = "hier" -> HierLoaded(x, ps)
    [] k = "anim" -> AnimLoaded(x, ps)
    [] k = "mrm" -> Has(ps, "mesh", MrmLoaded(x, g), NoMrm)
    [] k = "skin" -> SkinLoaded(x, ps, g)
    [] k = "mmesh" -> MeshLoaded(x, ps, g)
    [] k = "morph" -> MorphLoaded(x, ps)
    [] k = "model" -> [hier |-> HierLoaded(x.hier, All.hier), mesh |-> MeshLoaded(x.mesh, All.mmesh, g)]

XInit == obj = <<>> /\ file = <<>>
\* an object is made in memory and saved
Make(k, x, g) == obj' = <<x>> /\ file' = <<[k |-> k, x |-> x, ps |-> All[k], g |-> g]>>
\* what was loaded is saved again (a soft-skin mesh only if there are weights for each of its positions)
Whole(k, x) == k = "skin" => Len(x.weights) = Len(x.mesh.pos)
Again(g) == file # <<>> /\ obj # <<>> /\ Whole(file[1].k, obj[1]) /\ obj' = obj /\ file' = <<[k |-> file[1].k, x |-> obj[1], ps |-> All[file[1].k], g |-> g]>>
File(k, x, ps) == obj' = <<>> /\ file' = <<[k |-> k, x |-> x, ps |-> PartNames(k, x, ps), g |-> 2]>>
Load == file # <<>> /\ file' = file /\ obj' = <<Loaded(file[1].k, file[1].x, file[1].ps, file[1].g)>>
============================================================================================================================
