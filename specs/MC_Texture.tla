----------------------------------------------------- MODULE MC_Texture ----------------------------------------------------
(* All sizes up to a bound with all level counts (Sizes); all short histories of building, saving and loading (Emit).         *)
EXTENDS Texture, Json, TLC
CONSTANTS MaxSize, MaxLen, Emitting
VARIABLE hist
mvars == <<tvars, hist>>
Log(r) == hist' = Append(hist, r)
Ends == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
N == Len(hist)
Fmts == {BGRA, RGB, P8, DXT1}
Here == IF builder.w \in {1, 2, 4, 8, 16} /\ builder.h \in {1, 2, 4, 8, 16} THEN Fmts ELSE Fmts \ {DXT1}      \* blocks are four pixels wide
Blank(n) == [i \in 1 .. n |-> 0]
\* sizes that fit, sizes that do not, and sizes of the level before or after
Sizes(f) == LET k == Len(builder.levels) s(i) == LevelSize(f, builder.w, builder.h, i) IN {s(k), s(k) + 1, s(k + 1)} \cup (IF k > 0 THEN {s(k - 1)} ELSE {})
Filler(f, t, d, w, h) == IF f = t THEN d ELSE [i \in 1 .. BytesOf(t, w, h) |-> IF t = BGRA /\ f # BGRA /\ i % 4 = 0 THEN 255 ELSE 0]   \* black
MCNext ==
  \/ hist = <<>> /\ \E w \in 1 .. MaxSize, h \in 1 .. MaxSize : NewBuilder(w, h) /\ Log([op |-> "builder", w |-> w, h |-> h])
  \/ builder # <<>> /\ Ends \in {"builder", "add"} /\ \E f \in Here : \E n \in Sizes(f) : Add(Blank(n), f) /\ Log([op |-> "add", size |-> n, fmt |-> f])
  \/ builder # <<>> /\ builder.levels # <<>> /\ Ends = "add" /\ \E t \in Here :
        /\ Build(t, [i \in 1 .. Len(builder.levels) |-> Filler(builder.levels[i].fmt, t, builder.levels[i].data, Dim(builder.w, i - 1), Dim(builder.h, i - 1))])
        /\ Log([op |-> "build", fmt |-> t])
  \/ Save /\ Ends # "save" /\ Log([op |-> "save"])
  \/ Load /\ Ends = "save" /\ Log([op |-> "load"])
MCInit == TInit /\ hist = <<>>
MCSpec == MCInit /\ [][N < MaxLen /\ MCNext]_mvars
Emit == Emitting => PrintT("SCN" \o ToJson(hist'))

\* The levels of a texture halve, never vanish, and have the size of their format
Chain == tex # NoTex => \A i \in 1 .. Len(tex.levels) :
  LET w == Dim(tex.w, i - 1) h == Dim(tex.h, i - 1) IN
  /\ w >= 1 /\ h >= 1 /\ w = MaxOf(1, tex.w \div (2 ^ (i - 1))) /\ h = MaxOf(1, tex.h \div (2 ^ (i - 1)))
  /\ Len(tex.levels[i]) = BytesOf(tex.fmt, w, h)
Kept == [][hist'[Len(hist')].op = "load" => tex' = tex]_mvars
Refused == builder # <<>> => \A i \in 1 .. Len(builder.levels) : Len(builder.levels[i].data) = LevelSize(builder.levels[i].fmt, builder.w, builder.h, i - 1)
\* A file of a texture is read back unambiguously: its levels, from the end of the file, have the expected sizes
Whole == tex # NoTex /\ Ends = "save" => LET n == Len(FileBytes(tex)) IN n = 36 + (IF tex.fmt = P8 THEN 1024 ELSE 0) + Len(Cat(tex.levels))
============================================================================================================================
