------------------------------------------------------ MODULE Texture ------------------------------------------------------
(* Textures: the chain of ever smaller levels, the file that stores them, the builder, and the pixels of every format.        *)
EXTENDS Bytes
VARIABLES tex, file, builder
tvars == <<tex, file, builder>>

BGRA == 0  RGBA == 1  ABGR == 2  ARGB == 3  BGR == 4  RGB == 5  A4R4G4B4 == 6  A1R5G5B5 == 7  R5G6B5 == 8  P8 == 9  DXT1 == 10  DXT2 == 11  DXT3 == 12  DXT4 == 13  DXT5 == 14
Formats == 0 .. 14
IsDxt(f) == f >= 10

\* Every level is half as large as the one before in each direction, but never smaller than a pixel
RECURSIVE Dim(_, _)
Dim(d, level) == IF level = 0 THEN MaxOf(d, 1) ELSE MaxOf(1, Dim(d, level - 1) \div 2)
Blocks(d) == MaxOf(1, d \div 4)
BytesOf(f, w, h) == IF f <= 3 THEN w * h * 4 ELSE IF f <= 5 THEN w * h * 3 ELSE IF f <= 8 THEN w * h * 2 ELSE IF f = P8 THEN w * h ELSE Blocks(w) * Blocks(h) * (IF f = DXT1 THEN 8 ELSE 16)
LevelSize(f, w, h, i) == BytesOf(f, Dim(w, i), Dim(h, i))

----------------------------------------------------------------------------------------------------------------------------
(* Pixels: red, green, blue and alpha of pixel i (from zero) of data d. For R5G6B5, exact values are not always bytes.         *)
At4(d, i, a, b, c, e) == <<d[4 * i + a], d[4 * i + b], d[4 * i + c], d[4 * i + e]>>
Hi(b) == b \div 16
Lo(b) == b % 16
W16(d, i) == d[2 * i + 1] + 256 * d[2 * i + 2]
Pixel(f, d, i) ==
  CASE f = BGRA -> At4(d, i, 3, 2, 1, 4) [] f = RGBA -> At4(d, i, 1, 2, 3, 4) [] f = ABGR -> At4(d, i, 4, 3, 2, 1) [] f = ARGB -> At4(d, i, 2, 3, 4, 1)
    [] f = BGR -> <<d[3 * i + 3], d[3 * i + 2], d[3 * i + 1], 255>> [] f = RGB -> <<d[3 * i + 1], d[3 * i + 2], d[3 * i + 3], 255>>
    [] f = A4R4G4B4 -> <<17 * Lo(d[2 * i + 2]), 17 * Hi(d[2 * i + 1]), 17 * Lo(d[2 * i + 1]), 17 * Hi(d[2 * i + 2])>>
Five(p) == <<p \div 2048, (p \div 32) % 64, p % 32>>             \* the three channels of a 16-bit pixel
\* v out of n is about as much as b out of m: one of the two nearest
Near(v, n, b, m) == b \in {(v * m) \div n, (v * m + n - 1) \div n}
Near565(p, c) == LET t == Five(p) IN Near(t[1], 31, c[1], 255) /\ Near(t[2], 63, c[2], 255) /\ Near(t[3], 31, c[3], 255) /\ c[4] = 255
To565(p, c) == LET t == Five(p) IN Near(c[1], 255, t[1], 31) /\ Near(c[2], 255, t[2], 63) /\ Near(c[3], 255, t[3], 31)

\* Compressed blocks: two colours and for each pixel a mixture of them, alpha aside
Rgb565(p) == LET t == Five(p) IN <<8 * t[1] + t[1] \div 4, 4 * t[2] + t[2] \div 16, 8 * t[3] + t[3] \div 4>>
Mix(a, b, x, y, n) == [k \in 1 .. 3 |-> (x * a[k] + y * b[k]) \div n]
Code(d, o, k) == (d[o + 5 + (k \div 4)] \div (4 ^ (k % 4))) % 4  \* two bits for pixel k of the block whose colours are at o
Colour(d, o, k, three) ==
  LET a == d[o + 1] + 256 * d[o + 2] b == d[o + 3] + 256 * d[o + 4] x == Rgb565(a) y == Rgb565(b) c == Code(d, o, k) IN
  CASE c = 0 -> Append(x, 255) [] c = 1 -> Append(y, 255)
    [] c = 2 -> Append(IF three /\ a <= b THEN Mix(x, y, 1, 1, 2) ELSE Mix(x, y, 2, 1, 3), 255)
    [] c = 3 -> IF three /\ a <= b THEN <<0, 0, 0, 0>> ELSE Append(Mix(x, y, 1, 2, 3), 255)
Alpha3(d, o, k) == LET b == d[o + 1 + (k \div 2)] IN 17 * (IF k % 2 = 0 THEN Lo(b) ELSE Hi(b))
Bits(d, o, n) == (d[o + 1 + (n \div 8)] \div (2 ^ (n % 8))) % 2
Alpha5(d, o, k) ==
  LET a == d[o + 1] b == d[o + 2] c == Bits(d, o + 2, 3 * k) + 2 * Bits(d, o + 2, 3 * k + 1) + 4 * Bits(d, o + 2, 3 * k + 2) IN
  IF c = 0 THEN a ELSE IF c = 1 THEN b
  ELSE IF a <= b THEN (IF c = 6 THEN 0 ELSE IF c = 7 THEN 255 ELSE ((6 - c) * a + (c - 1) * b) \div 5)
  ELSE ((8 - c) * a + (c - 1) * b) \div 7
DxtPixel(f, d, w, i) ==
  LET x == i % w y == i \div w block == (y \div 4) * Blocks(w) + (x \div 4) k == 4 * (y % 4) + (x % 4) IN
  IF f = DXT1 THEN Colour(d, 8 * block, k, TRUE)
  ELSE LET c == Colour(d, 16 * block + 8, k, FALSE) IN [c EXCEPT ![4] = IF f = DXT3 THEN Alpha3(d, 16 * block, k) ELSE Alpha5(d, 16 * block, k)]

\* Formats that can be shown as RGBA (P8 by its palette) and formats that can be made from RGBA
Readable == (0 .. 6) \cup {R5G6B5, DXT1, DXT3, DXT5}
Writable == (0 .. 5) \cup {R5G6B5, DXT1, DXT3, DXT5}
Quad(s, i) == SubSeq(s, 4 * i + 1, 4 * i + 4)
Shows(f, pal, d, w, h, rgba) ==
  /\ Len(rgba) = w * h * 4
  /\ \A i \in 0 .. w * h - 1 : LET c == Quad(rgba, i) IN
       IF f = P8 THEN c = pal[d[i + 1] + 1] ELSE IF f = R5G6B5 THEN Near565(W16(d, i), c) ELSE IF IsDxt(f) THEN c = DxtPixel(f, d, w, i) ELSE c = Pixel(f, d, i)

\* Data d of format f was converted to data e of format t
Opaque(f) == f \in {BGR, RGB}
Same(c, e, t) == IF Opaque(t) THEN SubSeq(c, 1, 3) = SubSeq(e, 1, 3) ELSE c = e
Converted(f, t, d, e, w, h) ==
  IF f = t THEN e = d
  ELSE /\ Len(e) = BytesOf(t, w, h)
       /\ \A i \in 0 .. w * h - 1 :
            LET c == IF IsDxt(f) THEN DxtPixel(f, d, w, i) ELSE Pixel(f, d, i) IN
            IF f = R5G6B5 THEN (IF IsDxt(t) THEN TRUE ELSE Near565(W16(d, i), Pixel(t, e, i)))
            ELSE IF t = R5G6B5 THEN To565(W16(e, i), c)
            ELSE IF IsDxt(t)               \* lossy: claimed for data of one opaque colour
                 THEN IF f # RGBA THEN TRUE ELSE IF \E j \in 0 .. w * h - 1 : Pixel(RGBA, d, j) # Pixel(RGBA, d, 0) \/ d[4] # 255 THEN TRUE
                      ELSE LET p == DxtPixel(t, e, w, i) IN \A k \in 1 .. 4 : p[k] - c[k] \in -8 .. 8
            ELSE Same(c, Pixel(t, e, i), t)
CanConvert(f, t) == t # P8 /\ (f = t \/ (f \in Readable /\ t \in Writable))

----------------------------------------------------------------------------------------------------------------------------
(* Files                                                                                                                     *)
U32(n) == WordBytes(NatWord(n))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
\* x: fmt, w, h, mips (as stored), rw, rh, avg, pal, levels (the largest first)
FileBytes(x) ==
  <<90, 84, 69, 88>> \o U32(0) \o U32(x.fmt) \o U32(x.w) \o U32(x.h) \o U32(x.mips) \o WordBytes(x.rw) \o WordBytes(x.rh) \o WordBytes(x.avg)
  \o (IF x.fmt = P8 THEN Cat([i \in 1 .. 256 |-> <<x.pal[i][3], x.pal[i][2], x.pal[i][1], x.pal[i][4]>>]) ELSE <<>>)
  \o Cat([i \in 1 .. Len(x.levels) |-> x.levels[Len(x.levels) + 1 - i]])
NoTex == <<>>
TInit == tex = NoTex /\ file = <<>> /\ builder = <<>>
SetFile(x) == file' = <<x>> /\ UNCHANGED <<tex, builder>>
Load == file # <<>> /\ tex' = [file[1] EXCEPT !.mips = MaxOf(1, @)] /\ UNCHANGED <<file, builder>>
Save == tex # NoTex /\ file' = <<tex>> /\ UNCHANGED <<tex, builder>>
NewBuilder(w, h) == builder' = [w |-> w, h |-> h, levels |-> <<>>] /\ UNCHANGED <<tex, file>>
Fits(d, f) == Len(d) = LevelSize(f, builder.w, builder.h, Len(builder.levels))
Add(d, f) == builder' = (IF Fits(d, f) THEN [builder EXCEPT !.levels = Append(@, [data |-> d, fmt |-> f])] ELSE builder) /\ UNCHANGED <<tex, file>>
CanBuild(t) == t # P8 /\ \A i \in 1 .. Len(builder.levels) : CanConvert(builder.levels[i].fmt, t)
\* levels: the converted data of each level
Build(t, levels) ==
  /\ UNCHANGED <<file, builder>>
  /\ IF ~CanBuild(t) THEN UNCHANGED tex
     ELSE /\ Len(levels) = Len(builder.levels)
          /\ \A i \in 1 .. Len(levels) : Converted(builder.levels[i].fmt, t, builder.levels[i].data, levels[i], Dim(builder.w, i - 1), Dim(builder.h, i - 1))
          /\ tex' = [fmt |-> t, w |-> builder.w, h |-> builder.h, mips |-> Len(levels), rw |-> NatWord(builder.w), rh |-> NatWord(builder.h), avg |-> <<0, 0>>, pal |-> <<>>, levels |-> levels]
============================================================================================================================
