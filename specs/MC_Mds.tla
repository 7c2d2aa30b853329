------------------------------------------------------ MODULE MC_Mds -------------------------------------------------------
(* All short lists of declarations in several layouts: what they declare does not depend on the layout, nor on whether they   *)
(* are given as text or compiled; each event belongs to the last animation before it; a missing part is an error.             *)
EXTENDS Mds, Json
CONSTANTS MaxLen, Kinds, Layouts, Emitting
VARIABLES decls, style, hist
mcvars == <<mvars, decls, style, hist>>

\* Declarations are given as tokens; layouts say how they are written. A token: kw, str, int, num (thousandths / bits of the same value), punctuation
K(w) == [k |-> "kw", v |-> w]
S(w) == [k |-> "str", v |-> w]
I(n) == [k |-> "int", v |-> n]
N(m) == [k |-> "num", v |-> m]
C(c) == [k |-> c, v |-> <<>>]
A == <<65>>  B == <<66, 40, 49, 41, 46, 67>>  MI == <<77, 73>>                             \* A, B(1).C, MI
Tokens3(k) ==                                                 \* the tokens of a declaration inside aniEnum
  CASE k = "ani" -> <<K(W.ani), S(A), I(1), S(B), N(500), N(0), K(MI), S(A), K(W.r), I(3), I(-4)>>
    [] k = "fps" -> <<K(W.ani), S(B), I(2), S(A), N(0), N(0), K(<<46>>), S(B), K(W.f), I(0), I(9), K(W.FPS), C(":"), N(10000), K(W.CVS), C(":"), N(500)>>
    [] k = "evs" -> <<K(W.ani), S(A), I(1), S(B), N(0), N(0), K(MI), S(A), K(W.f), I(3), I(4), C("{"), K(W.eventSFX), I(1), S(A), K(W.r), C(":"), N(500), K(W.eventPFXStop), I(2), I(3), C("}")>>
    [] k = "open" -> <<K(W.ani), S(A), I(1), S(B), N(0), N(0), K(MI), S(A), K(W.f), I(3), I(4), K(W.eventTag), S(W.DEF_HIT_LIMB), S(B), K(W.eventMMStartAni), I(7), S(A)>>
    [] k = "alias" -> <<K(W.aniAlias), S(A), I(1), S(B), N(0), N(500), K(MI), S(B), K(W.r)>>
    [] k = "short" -> <<K(W.aniAlias), S(A), I(1), S(B), N(0), N(500), K(MI), S(B)>>
    [] k = "blend" -> <<K(W.aniBlend), S(A), S(B), N(500)>>
    [] k = "flags" -> <<K(W.aniBlend), S(A), I(1), S(B), N(0), N(500), K(MI)>>
    [] k = "comb" -> <<K(W.aniComb), S(A), I(9), S(A), N(500), N(500), K(<<77, 46>>), S(B), I(9), C("{"), K(W.eventSFX), C("}")>>
    [] k = "dis" -> <<K(W.aniDisable), S(A)>>
    [] k = "tag" -> <<K(W.modelTag), S(W.DEF_HIT_LIMB), S(B)>>
\* The same declarations as chunks (nothing where compiled scripts say the same differently)
Num4(n) == WordBytes(IF n < 0 THEN <<65535, 65536 + n>> ELSE <<0, n>>)
Flt(m) == WordBytes(CASE m = 0 -> <<0, 0>> [] m = 500 -> <<16128, 0>> [] m = 1000 -> <<16256, 0>> [] m = 10000 -> <<16672, 0>> [] m = 25000 -> <<16840, 0>>)
L(s) == s \o <<10>>
Ck(t, b) == <<t % 256, t \div 256>> \o WordBytes(NatWord(Len(b))) \o b
Code(k) ==
  CASE k = "ani" -> Ck(62752, L(A) \o Num4(1) \o L(B) \o Flt(500) \o Flt(0) \o L(MI) \o L(A) \o L(<<82>>) \o Num4(3) \o Num4(-4) \o Flt(25000) \o Flt(0) \o Flt(1000))
    [] k = "fps" -> Ck(62752, L(B) \o Num4(2) \o L(A) \o Flt(0) \o Flt(0) \o L(<<46>>) \o L(B) \o L(<<70>>) \o Num4(0) \o Num4(9) \o Flt(10000) \o Flt(0) \o Flt(500))
    [] k = "evs" -> Ck(62752, L(A) \o Num4(1) \o L(B) \o Flt(0) \o Flt(0) \o L(MI) \o L(A) \o L(<<70>>) \o Num4(3) \o Num4(4) \o Flt(25000) \o Flt(0) \o Flt(1000))
                    \o Ck(62880, Num4(2)) \o Ck(62881, Num4(1) \o L(A) \o Flt(500) \o Num4(0)) \o Ck(62885, Num4(2) \o Num4(3)) \o Ck(62895, <<>>)
    [] k = "open" -> Ck(62752, L(A) \o Num4(1) \o L(B) \o Flt(0) \o Flt(0) \o L(MI) \o L(A) \o L(<<70>>) \o Num4(3) \o Num4(4) \o Flt(25000) \o Flt(0) \o Flt(1000))
                    \o Ck(62883, Num4(0) \o L(W.DEF_HIT_LIMB) \o L(B) \o L(<<>>) \o L(<<>>) \o L(<<>>)) \o Ck(62889, Num4(7) \o L(A) \o L(<<>>) \o Flt(0) \o Flt(0))
    [] k = "alias" -> Ck(62768, L(A) \o Num4(1) \o L(B) \o Flt(0) \o Flt(500) \o L(MI) \o L(B) \o L(<<82>>))
    [] k = "short" -> Ck(62768, L(A) \o Num4(1) \o L(B) \o Flt(0) \o Flt(500) \o L(MI) \o L(B) \o L(<<70>>))
    [] k = "blend" -> Ck(62784, L(A) \o L(B) \o Flt(500) \o Flt(0))
    [] k = "flags" -> Ck(62784, L(A) \o L(B) \o Flt(0) \o Flt(500))
    [] k = "comb" -> Ck(62832, L(A) \o Num4(9) \o L(A) \o Flt(500) \o Flt(500) \o L(<<77, 46>>) \o L(B) \o Num4(9))
    [] k = "dis" -> Ck(62848, L(A))
    [] k = "tag" -> Ck(62864, Num4(0) \o L(W.DEF_HIT_LIMB) \o L(B))

\* ---------------------------------------------------------------------------------------------------------------- layouts
Dec(n) == IF n < 0 THEN <<45, 48 - n>> ELSE <<48 + n>>
DecM(m) == CASE m = 0 -> <<48>> [] m = 500 -> <<48, 46, 53>> [] m = 10000 -> <<49, 48>>
Case3(w) == IF style \in {"upper", "lines"} THEN Upper(w) ELSE w
Word3(t) == CASE t.k = "kw" -> Case3(t.v) [] t.k = "str" -> <<34>> \o t.v \o <<34>> [] t.k = "int" -> Dec(t.v) [] t.k = "num" -> DecM(t.v)
              [] t.k = "{" -> <<123>> [] t.k = "}" -> <<125>> [] t.k = ":" -> <<58>>
Gap == CASE style = "plain" -> <<32>> [] style = "upper" -> <<9, 40, 59>> [] style = "lines" -> <<13, 10>> [] style = "notes" -> <<41, 47, 47, 34, 123, 125, 10>> [] style = "tight" -> <<40>>
Text(ts) == FlattenSeq([i \in 1 .. Len(ts) |-> Word3(ts[i]) \o Gap])
Open == <<K(W.Model), S(A), C("{"), K(W.meshAndTree), S(B), K(W.DONT_USE_MESH), K(W.registerMesh), S(A), K(W.aniEnum), C("{")>>
\* "tight": no end of line and no closing braces at the end
Close(ds) == IF style = "tight" THEN <<>> ELSE IF ds # <<>> /\ ds[Len(ds)] = "open" THEN <<C("}")>> ELSE <<C("}"), K(W.registerMesh), S(B), C("}"), K(W.ani)>>
All(ds) == Open \o FlattenSeq([i \in 1 .. Len(ds) |-> Tokens3(ds[i])]) \o Close(ds)
TextOf(ds) == LET t == Text(All(ds)) IN IF style = "tight" THEN Cut(t) ELSE t
CodeOf(ds) == Ck(61440, Num4(1) \o L(A)) \o Ck(62208, Num4(1) \o L(B)) \o Ck(62464, L(A)) \o FlattenSeq([i \in 1 .. Len(ds) |-> Code(ds[i])])
              \o (IF style = "tight" \/ (ds # <<>> /\ ds[Len(ds)] = "open") THEN <<>> ELSE Ck(62464, L(B))) \o Ck(65535, <<>>)

MCInit == MInit /\ decls = <<>> /\ style \in Layouts /\ hist = <<>>
\* one declaration more, or one part of the declarations left out
Grow == Len(decls) < MaxLen /\ \E k \in Kinds : decls' = Append(decls, k) /\ Load(TextOf(decls')) /\ hist' = <<[op |-> "load", bytes |-> TextOf(decls'), same |-> FALSE], [op |-> "load", bytes |-> CodeOf(decls'), same |-> TRUE]>>
Miss == decls # <<>> /\ Len(decls) < MaxLen /\ \E i \in 1 .. Len(All(decls)) : LET ts == All(decls) IN
          /\ Load(Text(SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts)))) /\ hist' = <<[op |-> "load", bytes |-> Text(SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts))), same |-> FALSE]>>
          /\ decls' = Append(decls, "missing")
MCNext == (IF decls = <<>> THEN TRUE ELSE decls[Len(decls)] # "missing") /\ (Grow \/ Miss) /\ UNCHANGED style
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == Emitting => PrintT("SCN" \o ToJson(hist'))

Complete == decls # <<>> /\ decls[Len(decls)] # "missing"
Count(ks) == Cardinality({i \in 1 .. Len(decls) : decls[i] \in ks})
\* every declaration appears once, in order
Once == Complete => /\ res = "ok" /\ Len(script.anis) = Count({"ani", "fps", "evs", "open"}) /\ Len(script.aliases) = Count({"alias", "short"}) /\ Len(script.blends) = Count({"blend", "flags"})
                    /\ Len(script.combs) = Count({"comb"}) /\ Len(script.disabled) = Count({"dis"}) /\ Len(script.tags) = Count({"tag"})
                    /\ LET as == SelectSeq(decls, LAMBDA k : k \in {"ani", "fps", "evs", "open"}) IN
                       \A i \in 1 .. Len(as) : LET a == script.anis[i] IN
                         /\ a.name = (IF as[i] = "fps" THEN B ELSE A) /\ Len(a.sfx) = (IF as[i] = "evs" THEN 1 ELSE 0) /\ Len(a.tag) = (IF as[i] = "open" THEN 1 ELSE 0)
\* the compiled script declares the same (numbers as bits)
Zeros == {"bin", "bout", "fps", "speed", "cvs", "range"}
RECURSIVE AsBits(_)
Bits(m) == WordAt(IF m = 1000000 THEN <<0, 0, 122, 68>> ELSE Flt(m), 0)
AsBits(r) == [f \in DOMAIN r |-> IF f \in Zeros THEN Bits(r[f]) ELSE IF f \in {"sfx", "grnd"} THEN [i \in 1 .. Len(r[f]) |-> AsBits(r[f][i])] ELSE r[f]]
Each(q) == [i \in 1 .. Len(q) |-> AsBits(q[i])]
Same == Complete => Compiled(CodeOf(decls)).v = [script EXCEPT !.anis = Each(@), !.aliases = Each(@), !.blends = Each(@), !.combs = Each(@)]
============================================================================================================================
