------------------------------------------------------- MODULE Layout -------------------------------------------------------
(* How values are laid out in files: little-endian numbers, chunks, boxes, dates                                             *)
EXTENDS Bytes

Z == <<0, 0>>
Zs(n) == [i \in 1 .. n |-> Z]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
CatTo(s, F(_)) == Cat([i \in 1 .. Len(s) |-> F(s[i])])
U16(n) == LET m == (n + 65536) % 65536 IN <<m % 256, m \div 256>>
U32(n) == WordBytes(NatWord(n))
W(w) == WordBytes(w)
Ws(s) == CatTo(s, W)
Chunk(id, data) == U16(id) \o U32(Len(data)) \o data
Bit(b, n) == (b \div n) % 2
DateBytes(d) == W(d[1]) \o CatTo(SubSeq(d, 2, 6), U16) \o U16(0)

NoBox == [center |-> Zs(3), axes |-> Zs(9), half |-> Zs(3), kids |-> <<>>]
RECURSIVE BoxBytes(_)
BoxBytes(b) == Ws(b.center) \o Ws(b.axes) \o Ws(b.half) \o U16(Len(b.kids)) \o CatTo(b.kids, BoxBytes)

\* Fields of materials which files of Gothic 1 do not have
G1Mat(m) == [m EXCEPT !.detail_object_scale = Z, !.force_occluder = FALSE, !.environment_mapping = FALSE, !.environment_mapping_strength = Z, !.wave_mode = Z, !.wave_speed = Z,
                      !.wave_max_amplitude = Z, !.wave_grid_size = Z, !.ignore_sun = FALSE, !.alpha_func = Z]
============================================================================================================================
