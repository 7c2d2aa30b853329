-------------------------------------------------------- MODULE Mds --------------------------------------------------------
(* Model scripts: what the text of a source script and the chunks of a compiled script declare.                              *)
(* The text is split into tokens line by line (neither strings nor comments go beyond a line); the declarations and their    *)
(* parts are given as patterns over tokens, the compiled ones as patterns over the bytes of their chunks.                    *)
EXTENDS Bytes, Word32, TLC
VARIABLES script, res                                      \* what is loaded now; how the last load went
mvars == <<script, res>>

W == [Model |-> <<109, 111, 100, 101, 108>>,
      meshAndTree |-> <<109, 101, 115, 104, 97, 110, 100, 116, 114, 101, 101>>,
      registerMesh |-> <<114, 101, 103, 105, 115, 116, 101, 114, 109, 101, 115, 104>>,
      aniEnum |-> <<97, 110, 105, 101, 110, 117, 109>>,
      ani |-> <<97, 110, 105>>,
      aniBlend |-> <<97, 110, 105, 98, 108, 101, 110, 100>>,
      aniAlias |-> <<97, 110, 105, 97, 108, 105, 97, 115>>,
      aniComb |-> <<97, 110, 105, 99, 111, 109, 98>>,
      aniDisable |-> <<97, 110, 105, 100, 105, 115, 97, 98, 108, 101>>,
      modelTag |-> <<109, 111, 100, 101, 108, 116, 97, 103>>,
      DONT_USE_MESH |-> <<100, 111, 110, 116, 95, 117, 115, 101, 95, 109, 101, 115, 104>>,
      ATTACH |-> <<97, 116, 116, 97, 99, 104>>,
      EMPTY_SLOT |-> <<101, 109, 112, 116, 121, 95, 115, 108, 111, 116>>,
      EMTPY_SLOT |-> <<101, 109, 116, 112, 121, 95, 115, 108, 111, 116>>,
      FPS |-> <<102, 112, 115>>,
      CVS |-> <<99, 118, 115>>,
      r |-> <<114>>,
      f |-> <<102>>,
      DEF_HIT_LIMB |-> <<68, 69, 70, 95, 72, 73, 84, 95, 76, 73, 77, 66>>,
      HIT_LIMB |-> <<72, 73, 84, 95, 76, 73, 77, 66>>,
      FIST |-> <<70, 73, 83, 84>>,
      oneH |-> <<49, 72>>,
      oneh |-> <<49, 104>>,
      twoH |-> <<50, 72>>,
      twoh |-> <<50, 104>>,
      BOW |-> <<66, 79, 87>>,
      CBOW |-> <<67, 66, 79, 87>>,
      MAG |-> <<77, 65, 71>>,
      eventTag |-> <<42, 101, 118, 101, 110, 116, 116, 97, 103>>,
      eventSFX |-> <<42, 101, 118, 101, 110, 116, 115, 102, 120>>,
      eventSFXGrnd |-> <<42, 101, 118, 101, 110, 116, 115, 102, 120, 103, 114, 110, 100>>,
      eventPFX |-> <<42, 101, 118, 101, 110, 116, 112, 102, 120>>,
      eventPFXStop |-> <<42, 101, 118, 101, 110, 116, 112, 102, 120, 115, 116, 111, 112>>,
      eventMMStartAni |-> <<42, 101, 118, 101, 110, 116, 109, 109, 115, 116, 97, 114, 116, 97, 110, 105>>,
      eventCamTremor |-> <<42, 101, 118, 101, 110, 116, 99, 97, 109, 116, 114, 101, 109, 111, 114>>]
EventTypes == <<
      <<<<68, 69, 70, 95, 67, 82, 69, 65, 84, 69, 95, 73, 84, 69, 77>>, 1>>,
      <<<<68, 69, 70, 95, 73, 78, 83, 69, 82, 84, 95, 73, 84, 69, 77>>, 2>>,
      <<<<68, 69, 70, 95, 82, 69, 77, 79, 86, 69, 95, 73, 84, 69, 77>>, 3>>,
      <<<<68, 69, 70, 95, 68, 69, 83, 84, 82, 79, 89, 95, 73, 84, 69, 77>>, 4>>,
      <<<<68, 69, 70, 95, 80, 76, 65, 67, 69, 95, 73, 84, 69, 77>>, 5>>,
      <<<<68, 69, 70, 95, 69, 88, 67, 72, 65, 78, 71, 69, 95, 73, 84, 69, 77>>, 6>>,
      <<<<68, 69, 70, 95, 70, 73, 71, 72, 84, 77, 79, 68, 69>>, 7>>,
      <<<<68, 69, 70, 95, 80, 76, 65, 67, 69, 95, 77, 85, 78, 73, 84, 73, 79, 78>>, 8>>,
      <<<<68, 69, 70, 95, 82, 69, 77, 79, 86, 69, 95, 77, 85, 78, 73, 84, 73, 79, 78>>, 9>>,
      <<<<68, 69, 70, 95, 68, 82, 65, 87, 83, 79, 85, 78, 68>>, 10>>,
      <<<<68, 69, 70, 95, 85, 78, 68, 82, 65, 87, 83, 79, 85, 78, 68>>, 11>>,
      <<<<68, 69, 70, 95, 83, 87, 65, 80, 77, 69, 83, 72>>, 12>>,
      <<<<68, 69, 70, 95, 68, 82, 65, 87, 84, 79, 82, 67, 72>>, 13>>,
      <<<<68, 69, 70, 95, 73, 78, 86, 95, 84, 79, 82, 67, 72>>, 14>>,
      <<<<68, 69, 70, 95, 68, 82, 79, 80, 95, 84, 79, 82, 67, 72>>, 15>>,
      <<<<68, 69, 70, 95, 72, 73, 84, 95, 76, 73, 77, 66>>, 16>>,
      <<<<72, 73, 84, 95, 76, 73, 77, 66>>, 16>>,
      <<<<68, 69, 70, 95, 72, 73, 84, 95, 68, 73, 82>>, 17>>,
      <<<<68, 69, 70, 95, 68, 73, 82>>, 17>>,
      <<<<68, 69, 70, 95, 68, 65, 77, 95, 77, 85, 76, 84, 73, 80, 76, 89>>, 18>>,
      <<<<68, 69, 70, 95, 80, 65, 82, 95, 70, 82, 65, 77, 69>>, 19>>,
      <<<<68, 69, 70, 95, 79, 80, 84, 95, 70, 82, 65, 77, 69>>, 20>>,
      <<<<68, 69, 70, 95, 72, 73, 84, 95, 69, 78, 68>>, 21>>,
      <<<<68, 69, 70, 95, 87, 73, 78, 68, 79, 87>>, 22>> >>

\* ------------------------------------------------------------------------------------------------------------ tokens
IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == LowerC(c) >= 97 /\ LowerC(c) <= 122
KwStart(c) == IsAlpha(c) \/ c \in {42, 95, 46}             \* * _ .
KwPart(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {95, 45, 46}
Quiet(c) == IsSpace(c) \/ c \in {40, 41, 59}               \* ( ) ;
RECURSIVE KwEnd(_, _), StrEnd(_, _), NumEnd(_, _, _)
KwEnd(s, i) == IF i <= Len(s) /\ KwPart(s[i]) THEN KwEnd(s, i + 1) ELSE i
StrEnd(s, i) == IF i <= Len(s) /\ s[i] # 34 THEN StrEnd(s, i + 1) ELSE i
NumEnd(s, i, dot) == IF i <= Len(s) /\ (IsDigit(s[i]) \/ (s[i] = 46 /\ ~dot)) THEN NumEnd(s, i + 1, dot \/ s[i] = 46) ELSE i
Cut(s) == SubSeq(s, 1, Len(s) - 1)
\* A parenthesis at the end of a string is not part of it; a string that is not terminated ends with the last visible character
StrValue(s, closed) == LET v == IF closed THEN s ELSE TrimRight(s)
                           b == TrimRight(s) IN IF b # <<>> /\ b[Len(b)] = 41 THEN Cut(v) ELSE v
RECURSIVE LexFrom(_, _, _, _)
LexFrom(s, i, n, acc) ==
  IF i > Len(s) \/ s[i] = 47 THEN acc                      \* the end of the line, or a comment
  ELSE IF Quiet(s[i]) THEN LexFrom(s, i + 1, n, acc)
  ELSE LET Tok(k, v) == Append(acc, [k |-> k, v |-> v, line |-> n]) IN
       IF KwStart(s[i]) THEN LET e == KwEnd(s, i + 1) IN LexFrom(s, e, n, Tok("kw", SubSeq(s, i, e - 1)))
       ELSE IF s[i] = 34 THEN LET e == StrEnd(s, i + 1) IN LexFrom(s, e + 1, n, Tok("str", StrValue(SubSeq(s, i + 1, e - 1), e <= Len(s))))
       ELSE IF IsDigit(s[i]) \/ s[i] = 45 THEN LET e == NumEnd(s, i + 1, FALSE) IN
            LexFrom(s, e, n, Tok(IF 46 \in {s[j] : j \in i .. e - 1} THEN "float" ELSE "int", SubSeq(s, i, e - 1)))
       ELSE LexFrom(s, i + 1, n, Tok(CASE s[i] = 123 -> "{" [] s[i] = 125 -> "}" [] s[i] = 58 -> ":" [] OTHER -> "bad", <<s[i]>>))
Tokens(text) == LET ls == Split(text, 10) IN FlattenSeq([n \in 1 .. Len(ls) |-> LexFrom(ls[n], 1, n, <<>>)])

At(T, i) == IF i <= Len(T) THEN T[i] ELSE [k |-> "eof", v |-> <<>>, line |-> 0]
IsKw(T, i, w) == At(T, i).k = "kw" /\ Lower(At(T, i).v) = w

\* ------------------------------------------------------------------------------------------------------------ values
RECURSIVE NatOf(_, _)
NatOf(s, n) == IF s = <<>> THEN n ELSE NatOf(Tail(s), n * 10 + (s[1] - 48))
IntOf(s) == IF s # <<>> /\ s[1] = 45 THEN -NatOf(Tail(s), 0) ELSE NatOf(s, 0)
\* thousandths
Milli(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      t == IF neg THEN Tail(s) ELSE s
      p == Split(t, 46)
      f == IF Len(p) = 1 THEN <<48, 48, 48>> ELSE SubSeq(p[2] \o <<48, 48, 48>>, 1, 3)
      v == NatOf(p[1], 0) * 1000 + NatOf(f, 0) IN IF neg THEN -v ELSE v
Has(s, c) == \E i \in 1 .. Len(s) : s[i] = c
FlagsOf(s) == (IF Has(s, 77) THEN 1 ELSE 0) + (IF Has(s, 82) THEN 2 ELSE 0) + (IF Has(s, 69) THEN 4 ELSE 0) + (IF Has(s, 70) THEN 8 ELSE 0)
            + (IF Has(s, 73) THEN 16 ELSE 0) + (IF Has(s, 80) THEN 32 ELSE 0)                           \* M R E F I P
HasPart(s, w) == \E i \in 0 .. Len(s) - Len(w) : SubSeq(s, i + 1, i + Len(w)) = w
\* The numbers of a list, up to the first thing that is none
RECURSIVE FramesFrom(_, _, _), Blanks(_, _), Digits(_, _)
Blanks(s, i) == IF i <= Len(s) /\ IsSpace(s[i]) THEN Blanks(s, i + 1) ELSE i
Digits(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN Digits(s, i + 1) ELSE i
FramesFrom(s, i, acc) ==
  LET b == Blanks(s, i)
      d == IF b <= Len(s) /\ s[b] \in {43, 45} THEN b + 1 ELSE b
      e == Digits(s, d)
  IN IF e = d THEN acc ELSE FramesFrom(s, e, Append(acc, (IF s[b] = 45 THEN -1 ELSE 1) * NatOf(SubSeq(s, d, e - 1), 0)))
Frames(s) == FramesFrom(s, 1, <<>>)

TypeOf(s) == IF \E i \in 1 .. Len(EventTypes) : EventTypes[i][1] = s THEN EventTypes[CHOOSE i \in 1 .. Len(EventTypes) : EventTypes[i][1] = s][2] ELSE 0
ModeOf(s) == CASE s = W.FIST -> 0 [] s \in {W.oneH, W.oneh} -> 1 [] s \in {W.twoH, W.twoh} -> 2 [] s = W.BOW -> 3 [] s = W.CBOW -> 4 [] s = W.MAG -> 5 [] OTHER -> 6
\* What an event says depends on its type; compiled scripts keep a slot for more types
EventOf(frame, type, a, b, attach, compiled) ==
  LET t == TypeOf(type) IN
  [frame |-> frame, type |-> t, attach |-> attach,
   slot |-> IF t \in {1, 6, 2, 8, 12, 16} \/ (compiled /\ t \in {3, 4, 9, 10, 11, 14, 17}) THEN a ELSE <<>>,
   slot2 |-> IF t = 12 THEN b ELSE <<>>, item |-> IF t \in {1, 6} THEN b ELSE <<>>,
   frames |-> IF t \in 18 .. 22 THEN Frames(a) ELSE <<>>, mode |-> IF t = 7 THEN ModeOf(a) ELSE 6]

\* ----------------------------------------------------------------------------------------------- patterns of declarations
P(t, n) == [t |-> t, n |-> n]
D(t, n, d) == [t |-> t, n |-> n, d |-> d]
Head1 == <<P("str", "name"), P("int", "layer"), P("str", "next"), P("num", "bin"), P("num", "bout"), P("flags", "flags")>>
AniP == Head1 \o <<P("str", "model"), P("dir", "back"), P("int", "first"), P("int", "last"), [t |-> "named", n |-> "fps", d |-> 25000, w |-> W.FPS], [t |-> "named", n |-> "cvs", d |-> 1000, w |-> W.CVS]>>
AliasP == Head1 \o <<P("str", "alias"), P("mdir", "back")>>
CombP == Head1 \o <<P("str", "model"), P("int", "last"), P("block", "")>>
BlendP == <<P("str", "name"), D("mint", "", 0), P("str", "next"), D("mnum", "bin", 0), D("mnum", "bout", 0), P("mflags", ""), P("block", "")>>
SkelP == <<P("str", "name"), [t |-> "mkw", n |-> "nomesh", w |-> {W.DONT_USE_MESH}]>>
NameP == <<P("str", "name")>>
LimbP == <<P("limb", ""), P("str", "bone")>>
TagP == <<D("mint", "frame", 0), P("str", "type"), D("mstr", "a", <<>>), D("mstr", "b", <<>>), [t |-> "mkw", n |-> "attach", w |-> {W.ATTACH}]>>
SfxP == <<P("int", "frame"), P("str", "name"), [t |-> "named", n |-> "range", d |-> 1000000, w |-> W.r], [t |-> "mkw", n |-> "empty", w |-> {W.EMPTY_SLOT, W.EMTPY_SLOT}]>>
GrndP == <<P("int", "frame"), P("str", "name"), [t |-> "mkw", n |-> "", w |-> {W.EMPTY_SLOT}]>>
PfxP == <<P("int", "frame"), D("mint", "index", 0), P("str", "name"), P("str", "at"), [t |-> "mkwstr", n |-> "attach", w |-> {W.ATTACH}]>>
StopP == <<P("int", "frame"), P("int", "index")>>
MorphP == <<P("int", "frame"), P("str", "ani"), D("mstr", "node", <<>>)>>
ShakeP == <<P("int", "frame"), P("int", "a"), P("int", "b"), P("int", "c"), P("int", "d")>>

With(r, n, v) == IF n = "" THEN r ELSE r @@ (n :> v)
RECURSIVE BlockEnd(_, _), Match(_, _, _, _)
BlockEnd(T, i) == IF At(T, i).k = "eof" THEN i ELSE IF At(T, i).k = "}" THEN i + 1 ELSE BlockEnd(T, i + 1)
Fail == [ok |-> FALSE, i |-> 0, r |-> <<>>]
Colon(T, i) == IF At(T, i).k = ":" THEN i + 1 ELSE i
Match(T, i, pat, r) ==
  IF pat = <<>> THEN [ok |-> TRUE, i |-> i, r |-> r]
  ELSE LET p == Head(pat) q == Tail(pat) t == At(T, i) k == t.k
           Take(n, v) == Match(T, n, q, With(r, p.n, v))
           Num(x) == Milli(x)
           kw == Lower(t.v) IN
    CASE p.t = "str"    -> IF k = "str" THEN Take(i + 1, t.v) ELSE Fail
      [] p.t = "int"    -> IF k = "int" THEN Take(i + 1, IntOf(t.v)) ELSE Fail
      [] p.t = "num"    -> IF k \in {"int", "float"} THEN Take(i + 1, Num(t.v)) ELSE Fail
      [] p.t = "flags"  -> IF k = "kw" THEN Take(Colon(T, i + 1), FlagsOf(t.v)) ELSE Fail
      [] p.t = "dir"    -> IF k = "kw" /\ kw \in {W.f, W.r} THEN Take(i + 1, kw = W.r) ELSE Fail
      [] p.t = "mdir"   -> IF k = "kw" /\ kw \in {W.f, W.r} THEN Take(i + 1, kw = W.r) ELSE Take(i, FALSE)
      [] p.t = "mint"   -> IF k = "int" THEN Take(i + 1, IntOf(t.v)) ELSE Take(i, p.d)
      [] p.t = "mnum"   -> IF k \in {"int", "float"} THEN Take(i + 1, Num(t.v)) ELSE Take(i, p.d)
      [] p.t = "mstr"   -> IF k = "str" THEN Take(i + 1, t.v) ELSE Take(i, p.d)
      [] p.t = "mkw"    -> IF k = "kw" /\ kw \in p.w THEN Take(i + 1, TRUE) ELSE Take(i, FALSE)
      [] p.t = "mkwstr" -> IF k = "str" \/ (k = "kw" /\ kw \in p.w) THEN Take(i + 1, TRUE) ELSE Take(i, FALSE)
      [] p.t = "mflags" -> IF k = "kw" /\ ~HasPart(kw, <<97, 110, 105>>) /\ ~HasPart(kw, <<109, 111, 100, 101, 108>>) THEN Take(Colon(T, i + 1), 0) ELSE Take(i, 0)
      [] p.t = "named"  -> IF k = "kw" /\ kw = p.w
                           THEN IF At(T, i + 1).k = ":" /\ At(T, i + 2).k \in {"int", "float"} THEN Take(i + 3, Num(At(T, i + 2).v)) ELSE Fail
                           ELSE Take(i, p.d)
      [] p.t = "limb"   -> IF k = "str" /\ Lower(t.v) = Lower(W.DEF_HIT_LIMB) THEN Take(i + 1, 0) ELSE Fail
      [] p.t = "block"  -> IF k = "{" THEN Take(BlockEnd(T, i + 1), 0) ELSE Take(i, 0)

\* --------------------------------------------------------------------------------------------------------- source scripts
Nothing == [skel |-> [name |-> <<>>, nomesh |-> FALSE], meshes |-> <<>>, disabled |-> <<>>, combs |-> <<>>, blends |-> <<>>, aliases |-> <<>>, tags |-> <<>>, anis |-> <<>>]
NoEvents == [tag |-> <<>>, sfx |-> <<>>, grnd |-> <<>>, pfx |-> <<>>, stop |-> <<>>, morph |-> <<>>, shake |-> <<>>]
Add(r, f, x) == [r EXCEPT ![f] = Append(@, x)]
Failed == [ok |-> FALSE, v |-> Nothing]
EventKws == [tag |-> W.eventTag, sfx |-> W.eventSFX, grnd |-> W.eventSFXGrnd, pfx |-> W.eventPFX, stop |-> W.eventPFXStop, morph |-> W.eventMMStartAni, shake |-> W.eventCamTremor]
EventPs == [tag |-> TagP, sfx |-> SfxP, grnd |-> GrndP, pfx |-> PfxP, stop |-> StopP, morph |-> MorphP, shake |-> ShakeP]
KindsOf(T, i) == {k \in DOMAIN EventKws : IsKw(T, i, EventKws[k])}
Meaning(k, r) == CASE k = "tag" -> EventOf(r.frame, r.type, r.a, r.b, r.attach, FALSE)
                   [] k = "grnd" -> r @@ [range |-> 1000000, empty |-> FALSE]
                   [] OTHER -> r
\* The events of an animation end at a brace, at the end of the file, or where another declaration starts
RECURSIVE Events(_, _, _), Enum(_, _, _), Model(_, _, _), NextLine(_, _, _)
Events(T, i, a) ==
  LET t == At(T, i) IN
  CASE t.k = "}" -> [ok |-> TRUE, i |-> i + 1, r |-> a]
    [] t.k = "eof" -> [ok |-> TRUE, i |-> i, r |-> a]
    [] t.k \notin {"}", "eof", "kw"} -> Fail
    [] t.k = "kw" -> IF KindsOf(T, i) = {} THEN [ok |-> TRUE, i |-> i, r |-> a]
                     ELSE LET k == CHOOSE k \in KindsOf(T, i) : TRUE
                              m == Match(T, i + 1, EventPs[k], <<>>) IN
                          IF m.ok THEN Events(T, m.i, Add(a, k, Meaning(k, m.r))) ELSE Fail
\* Braces around events are optional
Animation(T, i) ==
  LET m == Match(T, i, AniP, <<>>)
      a == m.r @@ [speed |-> 0] @@ NoEvents
  IN IF ~m.ok THEN Fail
     ELSE IF At(T, m.i).k = "{" THEN Events(T, m.i + 1, a)
     ELSE IF At(T, m.i).k = "kw" /\ At(T, m.i).v[1] = 42 THEN Events(T, m.i, a)
     ELSE [ok |-> TRUE, i |-> m.i, r |-> a]
NextLine(T, i, n) == IF i <= Len(T) /\ T[i].line = n THEN NextLine(T, i + 1, n) ELSE i
Enum(T, i, s) ==
  LET t == At(T, i)
      kw == Lower(t.v)
      Decl(m, f, x) == IF m.ok THEN Enum(T, m.i, Add(s, f, x)) ELSE Fail
      M(p) == Match(T, i + 1, p, <<>>) IN
  CASE t.k = "}" -> [ok |-> TRUE, i |-> i + 1, r |-> s]
    [] t.k = "eof" -> [ok |-> TRUE, i |-> i, r |-> s]
    [] t.k \notin {"}", "eof", "kw"} -> Fail
    [] t.k = "kw" ->
       IF kw = W.ani THEN LET m == Animation(T, i + 1) IN Decl(m, "anis", m.r)
       ELSE IF kw = W.aniBlend THEN LET m == M(BlendP) IN Decl(m, "blends", m.r)
       ELSE IF kw = W.aniAlias THEN LET m == M(AliasP) IN Decl(m, "aliases", m.r)
       ELSE IF kw = W.aniComb THEN LET m == M(CombP) IN Decl(m, "combs", m.r)
       ELSE IF kw = W.aniDisable THEN LET m == M(NameP) IN IF m.ok THEN Decl(m, "disabled", m.r.name) ELSE Fail
       ELSE IF kw = W.modelTag THEN LET m == M(LimbP) IN IF m.ok THEN Decl(m, "tags", m.r.bone) ELSE Fail
       ELSE Enum(T, NextLine(T, i, t.line), s)                                  \* unknown: the rest of the line is ignored
Model(T, i, s) ==
  LET t == At(T, i)
      kw == Lower(t.v)
      m == Match(T, i + 1, IF kw = W.meshAndTree THEN SkelP ELSE NameP, <<>>) IN
  CASE t.k \in {"}", "eof"} -> [ok |-> TRUE, v |-> s]
    [] t.k \notin {"}", "eof", "kw"} -> Failed
    [] t.k = "kw" ->
       IF kw = W.meshAndTree THEN IF m.ok THEN Model(T, m.i, [s EXCEPT !.skel = m.r]) ELSE Failed
       ELSE IF kw = W.registerMesh THEN IF m.ok THEN Model(T, m.i, Add(s, "meshes", m.r.name)) ELSE Failed
       ELSE IF kw = W.aniEnum THEN IF At(T, i + 1).k # "{" THEN Failed
                                   ELSE LET e == Enum(T, i + 2, s) IN IF e.ok THEN Model(T, e.i, e.r) ELSE Failed
       ELSE [ok |-> TRUE, v |-> s]                                              \* unknown: the rest of the script is ignored
Source(text) ==
  LET T == Tokens(text) IN
  IF IsKw(T, 1, W.Model) /\ At(T, 2).k = "str" /\ At(T, 3).k = "{" THEN Model(T, 4, Nothing) ELSE Failed

\* ------------------------------------------------------------------------------------------------------- compiled scripts
\* l: a line; i: an integer; f: the bits of a float; b: not zero; F: flags; R: a direction
F(t, n) == [t |-> t, n |-> n]
BHead == <<F("l", "name"), F("i", "layer"), F("l", "next"), F("f", "bin"), F("f", "bout"), F("F", "flags")>>
BAni == BHead \o <<F("l", "model"), F("R", "back"), F("i", "first"), F("i", "last"), F("f", "fps"), F("f", "speed"), F("f", "cvs")>>
BAlias == BHead \o <<F("l", "alias"), F("R", "back")>>
BComb == BHead \o <<F("l", "model"), F("i", "last")>>
BBlend == <<F("l", "name"), F("l", "next"), F("f", "bin"), F("f", "bout")>>
BSfx == <<F("i", "frame"), F("l", "name"), F("f", "range"), F("b", "empty")>>
BTag == <<F("i", "frame"), F("l", "type"), F("l", "a"), F("l", "b")>>
BEvents == [sfx |-> BSfx, grnd |-> BSfx, tag |-> BTag, pfx |-> <<F("i", "frame"), F("i", "index"), F("l", "name"), F("l", "at"), F("b", "attach")>>,
            stop |-> <<F("i", "frame"), F("i", "index")>>, morph |-> <<F("i", "frame"), F("l", "ani"), F("l", "node")>>,
            shake |-> <<F("i", "frame"), F("i", "a"), F("i", "b"), F("i", "c"), F("i", "d")>>]
EventChunk == [sfx |-> 62881, grnd |-> 62882, tag |-> 62883, pfx |-> 62884, stop |-> 62885, morph |-> 62889, shake |-> 62890]     \* 0xF5A1 ..
RECURSIVE LineEnd(_, _), Fields(_, _, _, _), Chunks(_, _, _)
LineEnd(b, o) == IF o >= Len(b) \/ b[o + 1] \in {0, 10, 13} THEN o ELSE LineEnd(b, o + 1)
SInt(b, o) == Join(WordAt(b, o)[1], WordAt(b, o)[2])
Fields(b, o, pat, r) ==
  IF pat = <<>> THEN r
  ELSE LET p == Head(pat)
           e == LineEnd(b, o)
           line == SubSeq(b, o + 1, e)
           Take(n, v) == Fields(b, n, Tail(pat), With(r, p.n, v)) IN
    CASE p.t = "l" -> Take(e + 1, line)
      [] p.t = "F" -> Take(e + 1, FlagsOf(line))
      [] p.t = "R" -> Take(e + 1, line # <<>> /\ line[1] = 82)
      [] p.t = "i" -> Take(o + 4, SInt(b, o))
      [] p.t = "f" -> Take(o + 4, WordAt(b, o))
      [] p.t = "b" -> Take(o + 4, WordAt(b, o) # <<0, 0>>)
BMeaning(k, r) == IF k = "tag" THEN EventOf(r.frame, r.type, r.a, r.b, FALSE, TRUE) ELSE r
\* Every chunk is understood by itself; an event belongs to the last animation before it
Chunk(type, c, s) ==
  LET V(p) == Fields(c, 0, p, <<>>)
      ks == {k \in DOMAIN EventChunk : EventChunk[k] = type} IN
  CASE type = 62208 -> LET v == V(<<F("b", "nomesh"), F("l", "name")>>) IN [s EXCEPT !.skel = v]                 \* 0xF300
    [] type = 62464 -> Add(s, "meshes", V(<<F("l", "name")>>).name)                                              \* 0xF400
    [] type = 62752 -> Add(s, "anis", V(BAni) @@ NoEvents)                                                       \* 0xF520
    [] type = 62768 -> Add(s, "aliases", V(BAlias))
    [] type = 62784 -> Add(s, "blends", V(BBlend))
    [] type = 62832 -> Add(s, "combs", V(BComb))
    [] type = 62848 -> Add(s, "disabled", V(<<F("l", "name")>>).name)
    [] type = 62864 -> Add(s, "tags", V(<<F("i", ""), F("l", ""), F("l", "bone")>>).bone)
    [] ks # {} -> IF s.anis = <<>> THEN s
                  ELSE LET k == CHOOSE k \in ks : TRUE IN [s EXCEPT !.anis[Len(s.anis)] = Add(@, k, BMeaning(k, V(BEvents[k])))]
    [] OTHER -> s
Chunks(b, o, s) == IF o >= Len(b) THEN s
                   ELSE LET n == WordNat(WordAt(b, o + 2)) IN Chunks(b, o + 6 + n, Chunk(U16At(b, o), SubSeq(b, o + 7, o + 6 + n), s))
Compiled(b) == [ok |-> TRUE, v |-> Chunks(b, 0, Nothing)]
IsCompiled(b) == U16At(b, 0) >= 61440 \/ U16At(b, 0) = 53248

\* ----------------------------------------------------------------------------------------------------------------- loading
Read(b) == IF IsCompiled(b) THEN Compiled(b) ELSE Source(b)
MInit == script = Nothing /\ res = "ok"
\* What was loaded before does not matter; what is left after an error is not specified
Load(b) == LET x == Read(b) IN res' = (IF x.ok THEN "ok" ELSE "error") /\ script' = x.v
============================================================================================================================
