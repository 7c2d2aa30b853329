----------------------------------------------------- MODULE MC_Model ------------------------------------------------------
(* Histories of making, saving, composing and loading over small contents; all selections and orders of parts of files.       *)
EXTENDS Model, Json, TLC
CONSTANTS Kinds, MaxLen, Emitting, Small
VARIABLE hist
mvars == <<xvars, hist>>
N == Len(hist)
Ends == IF N = 0 THEN "" ELSE hist[N].op
Log(r) == hist' = Append(hist, r)

\* sequences without repetition of elements of S
RECURSIVE Arr(_)
Arr(S) == {<<>>} \cup UNION {{<<s>> \o t : t \in Arr(S \ {s})} : s \in S}
RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<s>> \o t : t \in Perm(S \ {s})} : s \in S}
At(q, k) == IF \E i \in 1 .. Len(q) : q[i].k = k THEN CHOOSE i \in 1 .. Len(q) : q[i].k = k ELSE 0
InOrder(q, a, b) == At(q, a) = 0 \/ At(q, b) = 0 \/ At(q, a) < At(q, b)
P(k) == [k |-> k, extra |-> <<>>]
PV(k, v) == [k |-> k, ver |-> v, extra |-> <<>>]
Un(id) == [k |-> "unknown", id |-> id, extra |-> <<7, 8>>]
One == <<16256, 0>>
V3 == <<One, Z, <<32768, 1>>>>
Da == <<<<0, 2002>>, 1, 2, 3, 4, 5>>

Glyphs == {[w |-> 7, uv |-> <<One, Z, <<0, 10>>, <<0, 32>>>>], [w |-> 10, uv |-> Zs(4)]}
Fonts == {[name |-> n, height |-> <<0, 10>>, glyphs |-> g] : n \in {<<>>, <<65>>, <<32, 66>>}, g \in {<<>>} \cup {<<a>> : a \in Glyphs} \cup {<<a, b>> : a \in Glyphs, b \in Glyphs}}
Hier(n) == [nodes |-> [i \in 1 .. n |-> [name |-> <<64 + i>>, parent |-> i - 2, m |-> [j \in 1 .. 16 |-> <<j, i>>]]], bbox |-> [i \in 1 .. 6 |-> <<1, i>>], cbox |-> [i \in 1 .. 6 |-> <<2, i>>],
            root |-> V3, sum |-> <<3, 4>>, date |-> Da, path |-> <<80>>]
HierParts == {q \o e : q \in Arr({PV("hierarchy", 3), P("source"), Un(53680)}), e \in {<<>>, <<P("end")>>}}
Anim == [name |-> <<65>>, next |-> <<>>, layer |-> <<0, 1>>, frames |-> 2, nodes |-> 1, fps |-> One, fpss |-> Z, min |-> -3, scale |-> 2, bbox |-> Zs(6), sum |-> <<0, 9>>, path |-> <<66>>, date |-> Da,
         script |-> <<67>>, samples |-> <<<<32767, 32767, 32767, 0, 1, 65535>>, <<65535, 0, 32767, 5, 5, 5>>>>, idx |-> <<<<0, 3>>>>,
         events |-> <<[type |-> Z, frame |-> <<0, 32>>, tag |-> <<84>>, text |-> <<<<>>, <<85>>, <<>>, <<>>>>, vals |-> <<<<0, 10>>, One, Z, Z>>, prob |-> One]>>]
AnimParts == {q \in Arr({P("marker"), P("source"), PV("header", 12), P("events"), P("samples")} \cup (IF Small THEN {} ELSE {Un(41088)})) : InOrder(q, "header", "samples")}

Mat == [name |-> <<77>>, group |-> <<0, 2>>, color |-> <<1, 2, 3, 4>>, smooth_angle |-> One, texture |-> <<84>>, texture_scale |-> <<One, Z>>, scale_txt |-> <<49, 32, 48>>, texture_anim_fps |-> One,
        texture_anim_map_mode |-> <<0, 1>>, texture_anim_map_dir |-> <<Z, One>>, dir_txt |-> <<48, 32, 49>>, disable_collision |-> TRUE, disable_lightmap |-> FALSE, dont_collapse |-> TRUE,
        detail_object |-> <<>>, detail_object_scale |-> One, force_occluder |-> TRUE, environment_mapping |-> FALSE, environment_mapping_strength |-> One, wave_mode |-> <<0, 1>>, wave_speed |-> <<0, 2>>,
        wave_max_amplitude |-> One, wave_grid_size |-> One, ignore_sun |-> TRUE, alpha_func |-> <<0, 3>>, default_mapping |-> <<One, One>>]
Sub(m) == [mat |-> m, tri |-> <<<<0, 1, 2>>>>, wedges |-> <<[n |-> V3, t |-> <<One, Z>>, i |-> 3]>>, colors |-> <<One>>, tpi |-> <<4>>, planes |-> <<<<One, Z, Z, One>>>>, tedges |-> <<<<5, 6, 7>>>>,
           edges |-> <<<<8, 9>>>>, scores |-> <<Z, One>>, wmap |-> <<65535>>]
Bare(m) == [f \in DOMAIN m \ {"scale_txt", "dir_txt"} |-> m[f]]
Header == <<90, 101, 110, 71, 105, 110, 32, 65, 114, 99, 104, 105, 118, 101, 10, 118, 101, 114, 32, 49, 10, 122, 67, 65, 114, 99, 104, 105, 118, 101, 114, 71, 101, 110, 101, 114, 105, 99, 10,
            66, 73, 78, 65, 82, 89, 10, 115, 97, 118, 101, 71, 97, 109, 101, 32, 48, 10, 69, 78, 68, 10, 111, 98, 106, 101, 99, 116, 115, 32, 49, 10, 69, 78, 68, 10, 10>>
Seq12(n) == [i \in 1 .. n |-> i]
Backwards(n) == [i \in 1 .. n |-> n + 1 - i]
Mrm(n, a) == [pos |-> <<V3>>, nor |-> <<V3, V3>>, subs |-> [i \in 1 .. n |-> Sub(Bare(Mat))], alpha |-> a, bbox |-> Zs(6), obb |-> NoBox]
Ver == [n \in 0 .. 2 |-> IF n = 0 THEN 773 ELSE IF n = 1 THEN 2053 ELSE 2309]
LayOf(n, ver, mg, o, g) == [ver |-> ver, order |-> o, gaps |-> [i \in 1 .. 2 + 10 * n |-> g * (i % 2)], tail |-> g, junk |-> 4660, updates |-> <<1>>, mg |-> mg, head |-> Header, mextra |-> <<>>]
MrmIn(n, a, l) == [pos |-> <<V3>>, nor |-> <<V3, V3>>, subs |-> [i \in 1 .. n |-> Sub(Mat)], alpha |-> a, bbox |-> Zs(6), obb |-> NoBox, lay |-> l]
MrmIns == {MrmIn(n, a, LayOf(n, Ver[v], mg, o, g)) : n \in {1}, a \in {0, 1}, v \in 0 .. 2, mg \in {1, 2}, o \in {Seq12(12), Backwards(12)}, g \in {0, 3}} \cup {MrmIn(0, 0, LayOf(0, 2309, 2, <<2, 1>>, 0))}
Tiny == MrmIn(0, 0, LayOf(0, 2309, 2, <<1, 2>>, 0))
Skin == [boxes |-> <<NoBox>>, nodes |-> <<<<0, 5>>>>, wn |-> <<[n |-> V3, i |-> <<0, 6>>]>>, weights |-> <<<<[w |-> One, p |-> V3, n |-> 7], [w |-> Z, p |-> V3, n |-> 8]>>>>]
With(r, f, v) == [k \in DOMAIN r \cup {f} |-> IF k = f THEN v ELSE r[k]]
SkinOf(m) == With(Skin, "mesh", m)
Nodes(s) == [k |-> "nodes", slack |-> s, extra |-> <<>>]
SkinParts == {q \in UNION {Arr({PV("header", 4), P("proto"), Nodes(s), Un(57632)}) : s \in {<<>>, <<1, 2>>}} : (At(q, "nodes") = 0 \/ At(q, "proto") > 0) /\ InOrder(q, "proto", "nodes")}
SkinIns == {With(SkinOf(Tiny), "parts", Append(q, P("end"))) : q \in SkinParts}
Atts(m) == <<[name |-> <<65>>, mesh |-> m], [name |-> <<66, 67>>, mesh |-> m]>>
ASkin == With(SkinOf(Tiny), "parts", <<PV("header", 4), P("proto"), Nodes(<<>>), P("end")>>)
MMesh(ss, as) == [sum |-> <<1, 1>>, skins |-> ss, atts |-> as]
MMeshIn(o) == [sum |-> <<1, 1>>, skins |-> <<ASkin>>, atts |-> Atts(Tiny), order |-> o]
Pr(i) == [k |-> "proto", i |-> i, extra |-> <<>>]
MMeshParts == {Append(q, P("end")) : q \in {q \in UNION {Perm({PV("header", 1), P("nodes"), Pr(1), Pr(2), [k |-> "skins", inside |-> b]} \cup (IF Small THEN {} ELSE {Un(53328)})) : b \in BOOLEAN} :
                 InOrder(q, "nodes", "proto") /\ \A i, j \in 1 .. Len(q) : (q[i] = Pr(1) /\ q[j] = Pr(2)) => i < j}}
Morph == [name |-> <<65>>, mesh |-> Tiny, mpos |-> <<V3>>, sources |-> <<[date |-> Da, name |-> <<66>>], [date |-> With(Da, 1, <<0, 2058>>), name |-> <<>>]>>,
          anims |-> <<[name |-> <<67>>, layer |-> <<65535, 65535>>, t |-> <<One, Z, One, Z>>, flags |-> 3, frames |-> 2, verts |-> <<<<0, 1>>>>, samples |-> <<V3, V3>>]>>]
MorphParts == {q \in Arr({P("sources"), PV("header", 1), P("proto"), P("morph"), P("anims")} \cup (IF Small THEN {} ELSE {Un(57408)})) : InOrder(q, "proto", "morph") /\ (At(q, "morph") = 0 \/ At(q, "proto") > 0)}

Made(k) == CASE k = "font" -> Fonts [] k = "hier" -> {Hier(n) : n \in 0 .. 2} [] k = "mrm" -> {Mrm(n, a) : n \in 0 .. 2, a \in {0, 1}}
             [] k = "skin" -> {SkinOf(Mrm(n, 1)) : n \in 0 .. 1} [] k = "mmesh" -> {MMesh(ss, as) : ss \in {<<>>, <<SkinOf(Mrm(1, 0))>>, <<SkinOf(Mrm(0, 0)), SkinOf(Mrm(0, 1))>>}, as \in {<<>>, Atts(Mrm(1, 1))}}
             [] k = "model" -> {[hier |-> Hier(1), mesh |-> MMesh(<<SkinOf(Mrm(0, 0))>>, as)] : as \in {<<>>, Atts(Mrm(0, 0))}} [] OTHER -> {}
Composed(k) == CASE k = "font" -> {[x |-> x, parts |-> <<>>] : x \in Fonts} [] k = "hier" -> {[x |-> Hier(2), parts |-> q] : q \in HierParts} [] k = "anim" -> {[x |-> Anim, parts |-> q] : q \in AnimParts}
                 [] k = "mrm" -> {[x |-> x, parts |-> q] : x \in MrmIns, q \in {<<P("mesh"), P("end")>>, <<Un(45313), P("mesh"), Un(45314), P("end")>>}}
                 [] k = "skin" -> {[x |-> x, parts |-> <<>>] : x \in SkinIns} [] k = "mmesh" -> {[x |-> MMeshIn(o), parts |-> q] : o \in {<<1, 2>>, <<2, 1>>}, q \in MMeshParts}
                 [] k = "morph" -> {[x |-> Morph, parts |-> q] : q \in MorphParts}
                 [] k = "model" -> {[x |-> [hier |-> Hier(1), mesh |-> MMeshIn(<<1, 2>>)], parts |-> [hier |-> h, mesh |-> q]] :
                                      h \in {<<PV("hierarchy", 3), P("source"), P("end")>>, <<P("source"), Un(53680), PV("hierarchy", 3), P("end")>>}, q \in {q \in MMeshParts : q[1] = PV("header", 1)}}
MCNext ==
  \/ hist = <<>> /\ \E k \in Kinds : \E x \in Made(k), g \in {1, 2} : Make(k, x, g) /\ Log([op |-> "save", k |-> k, x |-> x, v |-> g])
  \/ hist = <<>> /\ \E k \in Kinds : \E c \in Composed(k) : File(k, c.x, c.parts) /\ Log([op |-> "file", k |-> k, x |-> c.x, parts |-> c.parts])
  \/ Ends \in {"save", "file"} /\ Load /\ Log([op |-> "load", k |-> file[1].k])
  \/ Ends = "load" /\ file[1].k \in DOMAIN All /\ \E g \in {1, 2} : Again(g) /\ Log([op |-> "save", k |-> file[1].k, v |-> g])
MCInit == XInit /\ hist = <<>>
MCSpec == MCInit /\ [][N < MaxLen /\ MCNext]_mvars
\* scenarios that end in a load, of full length where the kind can be saved
Emit == (Emitting /\ hist'[Len(hist')].op = "load" /\ (Len(hist') = MaxLen \/ file[1].k \notin DOMAIN All \/ ~Whole(file[1].k, obj'[1]))) => PrintT("SCN" \o ToJson(hist'))

\* Files made of chunks can be walked through: each chunk says where the next one begins
RECURSIVE Walk(_, _, _)
Walk(b, off, n) == IF off >= Len(b) THEN n ELSE LET size == WordNat(WordAt(b, off + 2)) IN IF off + 6 + size > Len(b) THEN -1 ELSE Walk(b, off + 6 + size, n + 1)
Readable == Ends = "file" => LET h == hist[N] b == FileBytes(h.k, h.x, h.parts) IN
  CASE h.k \in {"hier", "anim", "mrm", "morph"} -> Walk(b, 0, 0) = Len(h.parts)
    [] h.k = "skin" -> Walk(b, 0, 0) = Len(h.x.parts)
    [] h.k = "mmesh" -> (\A i \in 1 .. Len(h.parts) : h.parts[i].k = "skins" => h.parts[i].inside) => Walk(b, 0, 0) = Len(h.parts)
    [] h.k = "font" -> Len(b) = 11 + Len(h.x.name) + 17 * Len(h.x.glyphs)
    [] OTHER -> TRUE
\* The blocks of a mesh do not overlap and lie within its content
Disjoint == Ends = "file" /\ hist[N].k = "mrm" => LET x == hist[N].x c == Lay(x, 1, <<>>, [b \in 1 .. 2 + 10 * Len(x.subs) |-> 0]) IN
  \A a \in DOMAIN c[2] : /\ Slice(c[1], c[2][a], Len(Block(x, a))) = Block(x, a)
                         /\ \A b \in DOMAIN c[2] : a = b \/ c[2][a] + Len(Block(x, a)) <= c[2][b] \/ c[2][b] + Len(Block(x, b)) <= c[2][a]
\* What was loaded once stays the same when it is saved for Gothic 2 and loaded again; saving it for Gothic 1 twice changes nothing more
Stable == [][(hist'[Len(hist')].op = "load" /\ Len(hist') >= 4 /\ (hist[N].v = 2 \/ (Len(hist') >= 6 /\ hist[N - 2].v = 1))) => obj' = obj]_mvars
============================================================================================================================
