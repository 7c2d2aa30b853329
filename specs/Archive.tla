------------------------------------------------------ MODULE Archive ------------------------------------------------------
(* ZenGin archives (A01, A02): a sequence of tokens - beginnings of objects, ends of objects, typed entries - and its       *)
(* representation as bytes in the three formats. Reading moves a cursor over the tokens.                                   *)
EXTENDS Bytes, TLC

VARIABLES fmt,      \* "ascii", "binary", "binsafe"
          save,     \* whether this is a save-game
          toks,     \* the tokens written
          next,     \* index of the next object
          head,     \* number of bytes in front of the archive
          pos,      \* reading: index of the next token, 0 while writing
          res
vars == <<fmt, save, toks, next, head, pos, res>>

Kinds == {"string", "int", "float", "byte", "word", "enum", "bool", "color", "vec3", "vec2", "bbox", "mat3", "raw", "rawf"}
IsEntry(t) == t.k \in Kinds
NUL == 0  NL == 10
Sec == 167                                              \* the class of a reference

-----------------------------------------------------------------------------------------------------------------------------
(* Text *)
RECURSIVE DecNat(_)
DecNat(n) == IF n < 10 THEN <<48 + n>> ELSE DecNat(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE DecWord(_)
DecWord(w) == IF w[1] = 0 THEN DecNat(w[2])
              ELSE LET r == (w[1] % 10) * 65536 + w[2] IN DecWord(<<(w[1] \div 10) + (r \div 10) \div 65536, (r \div 10) % 65536>>) \o <<48 + (r % 10)>>
Negated(w) == LET lo == (65536 - w[2]) % 65536 IN <<(65535 - w[1] + (IF w[2] = 0 THEN 1 ELSE 0)) % 65536, lo>>
DecSigned(w) == IF w[1] < 32768 THEN DecWord(w) ELSE <<45>> \o DecWord(Negated(w))
HexC(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(b) == [i \in 1 .. 2 * Len(b) |-> LET x == b[((i - 1) \div 2) + 1] IN HexC(IF (i % 2) = 1 THEN x \div 16 ELSE x % 16)]
WordsBytes(ws) == FlattenSeq([i \in 1 .. Len(ws) |-> WordBytes(ws[i])])
Transposed(ws) == [k \in 1 .. 9 |-> ws[((k - 1) % 3) * 3 + ((k - 1) \div 3) + 1]]
RECURSIVE Joined(_, _)
Joined(ts, sep) == IF Len(ts) = 0 THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Joined(Tail(ts), sep)
Bool(b) == IF b THEN 1 ELSE 0

-----------------------------------------------------------------------------------------------------------------------------
(* ASCII: one line per token; floats are printed with six decimals (txt, from the C library)                                *)
AsciiType(k) == CASE k \in {"int", "byte", "word"} -> "int"
                  [] k \in {"vec2", "bbox", "rawf"} -> "rawFloat"
                  [] k \in {"mat3", "raw"} -> "raw"
                  [] OTHER -> k
TypeText == [int |-> <<105, 110, 116>>, string |-> <<115, 116, 114, 105, 110, 103>>, float |-> <<102, 108, 111, 97, 116>>,
             enum |-> <<101, 110, 117, 109>>, bool |-> <<98, 111, 111, 108>>, color |-> <<99, 111, 108, 111, 114>>,
             vec3 |-> <<118, 101, 99, 51>>, raw |-> <<114, 97, 119>>, rawFloat |-> <<114, 97, 119, 70, 108, 111, 97, 116>>]
Brackets(t) == <<91>> \o t.name \o <<32>> \o t.cls \o <<32>> \o DecNat(t.ver) \o <<32>> \o DecNat(t.idx) \o <<93>>
AsciiValue(t) ==
  CASE t.k = "string" -> t.v
    [] t.k = "int" -> DecSigned(t.v)
    [] t.k \in {"byte", "word"} -> DecNat(t.v)
    [] t.k = "enum" -> DecWord(t.v)
    [] t.k = "bool" -> DecNat(Bool(t.v))
    [] t.k = "color" -> Joined([i \in 1 .. 4 |-> DecNat(t.v[i])], <<32>>)
    [] t.k = "float" -> t.txt[1]
    [] t.k = "vec3" -> Joined(t.txt, <<32>>)
    [] t.k \in {"vec2", "bbox", "rawf"} -> FlattenSeq([i \in 1 .. Len(t.txt) |-> t.txt[i] \o <<32>>])
    [] t.k = "mat3" -> Hex(WordsBytes(Transposed(t.v)))
    [] t.k = "raw" -> Hex(t.v)
AsciiLine(t) == IF t.k = "begin" THEN Brackets(t) ELSE IF t.k = "end" THEN <<91, 93>>
                ELSE t.name \o <<61>> \o TypeText[AsciiType(t.k)] \o <<58>> \o AsciiValue(t)
RECURSIVE NotBlank(_, _)
NotBlank(s, i) == IF i <= Len(s) /\ s[i] \in {9, 32} THEN NotBlank(s, i + 1) ELSE SubSeq(s, i, Len(s))
\* Indentation is free
AsciiBody(b) == LET ls == Split(b, NL) IN
  /\ Len(ls) = Len(toks) + 1 /\ ls[Len(ls)] = <<>>
  /\ \A i \in 1 .. Len(toks) : NotBlank(ls[i], 1) = AsciiLine(toks[i])

-----------------------------------------------------------------------------------------------------------------------------
(* BINARY: entries without names and types, objects with their size *)
BinValue(t) ==
  CASE t.k = "string" -> t.v \o <<NUL>>
    [] t.k \in {"int", "float"} -> WordBytes(t.v)
    [] t.k = "byte" -> <<t.v>>
    [] t.k = "word" -> <<t.v % 256, t.v \div 256>>
    [] t.k = "enum" -> <<t.v[2] % 256>>
    [] t.k = "bool" -> <<Bool(t.v)>>
    [] t.k = "color" -> <<t.v[3], t.v[2], t.v[1], t.v[4]>>
    [] t.k \in {"vec3", "vec2", "bbox", "rawf"} -> WordsBytes(t.v)
    [] t.k = "mat3" -> WordsBytes(Transposed(t.v))
    [] t.k = "raw" -> t.v
RECURSIVE BinBody(_, _, _)
BinBody(i, out, open) ==
  IF i > Len(toks) THEN out
  ELSE LET t == toks[i] IN
    IF t.k = "begin" THEN BinBody(i + 1, out \o <<0, 0, 0, 0>> \o <<t.ver % 256, t.ver \div 256>> \o WordBytes(NatWord(t.idx)) \o t.name \o <<NUL>> \o t.cls \o <<NUL>>, Append(open, Len(out)))
    ELSE IF t.k = "end" THEN
      LET s == open[Len(open)]  n == WordBytes(NatWord(Len(out) - s)) IN
      BinBody(i + 1, SubSeq(out, 1, s) \o n \o SubSeq(out, s + 5, Len(out)), SubSeq(open, 1, Len(open) - 1))
    ELSE BinBody(i + 1, out \o BinValue(t), open)

-----------------------------------------------------------------------------------------------------------------------------
(* BIN_SAFE: entries with type and name, the names in a table at the end *)
SafeTag == [string |-> 1, int |-> 2, float |-> 3, byte |-> 4, word |-> 5, bool |-> 6, vec3 |-> 7, color |-> 8, raw |-> 9, mat3 |-> 9,
            vec2 |-> 16, bbox |-> 16, rawf |-> 16, enum |-> 17]
U16(n) == <<n % 256, n \div 256>>
RECURSIVE KeysOf(_, _)
KeysOf(i, acc) == IF i > Len(toks) THEN acc
                  ELSE KeysOf(i + 1, IF IsEntry(toks[i]) /\ \A j \in 1 .. Len(acc) : acc[j] # toks[i].name THEN Append(acc, toks[i].name) ELSE acc)
KeyIdx(keys, n) == (CHOOSE j \in 1 .. Len(keys) : keys[j] = n) - 1
SafeValue(t) ==
  CASE t.k = "string" -> U16(Len(t.v)) \o t.v
    [] t.k \in {"int", "float", "enum"} -> WordBytes(t.v)
    [] t.k = "byte" -> <<t.v>>
    [] t.k = "word" -> U16(t.v)
    [] t.k = "bool" -> <<Bool(t.v), 0, 0, 0>>
    [] t.k = "color" -> <<t.v[3], t.v[2], t.v[1], t.v[4]>>
    [] t.k = "vec3" -> WordsBytes(t.v)
    [] t.k \in {"vec2", "bbox", "rawf"} -> U16(4 * Len(t.v)) \o WordsBytes(t.v)
    [] t.k = "mat3" -> U16(36) \o WordsBytes(Transposed(t.v))
    [] t.k = "raw" -> U16(Len(t.v)) \o t.v
SafeTok(keys, t) == IF t.k = "begin" THEN <<1>> \o U16(Len(Brackets(t))) \o Brackets(t)
                    ELSE IF t.k = "end" THEN <<1, 2, 0, 91, 93>>
                    ELSE <<18>> \o WordBytes(NatWord(KeyIdx(keys, t.name))) \o <<SafeTag[t.k]>> \o SafeValue(t)
RECURSIVE HashOf(_, _, _)
HashOf(s, i, w) == IF i > Len(s) THEN ((w[1] % 97) * (65536 % 97) + w[2]) % 97
                   ELSE LET lo == w[2] * 33 + s[i] IN HashOf(s, i + 1, <<(w[1] * 33 + lo \div 65536) % 65536, lo % 65536>>)
SafeTable(keys) == WordBytes(NatWord(Len(keys)))
                   \o FlattenSeq([j \in 1 .. Len(keys) |-> U16(Len(keys[j])) \o U16(j - 1) \o WordBytes(NatWord(HashOf(keys[j], 1, <<0, 0>>))) \o keys[j]])

-----------------------------------------------------------------------------------------------------------------------------
(* The whole file. b is everything behind the bytes in front of the archive. *)
LineAt(b, o) == LET e == CHOOSE e \in o .. Len(b) : (e = Len(b) \/ b[e + 1] = NL) /\ \A f \in o .. e - 1 : b[f + 1] # NL
                IN [v |-> SubSeq(b, o + 1, e), at |-> e + 1]
RECURSIVE LinesAt(_, _, _, _)
LinesAt(b, o, n, acc) == IF n = 0 THEN [v |-> acc, at |-> o] ELSE LET x == LineAt(b, o) IN LinesAt(b, x.at, n - 1, Append(acc, x.v))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Txt == [magic |-> <<90, 101, 110, 71, 105, 110, 32, 65, 114, 99, 104, 105, 118, 101>>, ver |-> <<118, 101, 114, 32, 49>>,
        ascii |-> <<65, 83, 67, 73, 73>>, binary |-> <<66, 73, 78, 65, 82, 89>>, binsafe |-> <<66, 73, 78, 95, 83, 65, 70, 69>>,
        save |-> <<115, 97, 118, 101, 71, 97, 109, 101, 32>>, date |-> <<100, 97, 116, 101, 32>>, user |-> <<117, 115, 101, 114, 32>>,
        end |-> <<69, 78, 68>>, objects |-> <<111, 98, 106, 101, 99, 116, 115, 32>>]
HeaderOk(h) == /\ h[1] = Txt.magic /\ h[2] = Txt.ver /\ h[4] = Txt[fmt] /\ h[5] = Txt.save \o DecNat(Bool(save))
               /\ StartsWith(h[6], Txt.date) /\ StartsWith(h[7], Txt.user) /\ h[8] = Txt.end
File(b) ==
  LET h == LinesAt(b, 0, 8, <<>>) IN
  /\ HeaderOk(h.v)
  /\ IF fmt = "binsafe"
     THEN LET keys == KeysOf(1, <<>>)
              body == FlattenSeq([i \in 1 .. Len(toks) |-> SafeTok(keys, toks[i])])
          IN SubSeq(b, h.at + 1, Len(b)) = WordBytes(NatWord(2)) \o WordBytes(NatWord(next)) \o WordBytes(NatWord(head + h.at + 12 + Len(body))) \o body \o SafeTable(keys)
     ELSE LET g == LinesAt(b, h.at, 3, <<>>) IN
          /\ StartsWith(g.v[1], Txt.objects) /\ TrimRight(g.v[1]) = Txt.objects \o DecNat(next) /\ g.v[2] = Txt.end /\ g.v[3] = <<>>
          /\ LET body == SubSeq(b, g.at + 1, Len(b)) IN IF fmt = "ascii" THEN AsciiBody(body) ELSE body = BinBody(1, <<>>, <<>>)

-----------------------------------------------------------------------------------------------------------------------------
(* Writing *)
Init == fmt = "ascii" /\ save = FALSE /\ toks = <<>> /\ next = 0 /\ head = 0 /\ pos = 0 /\ res = 0
Create(o) == fmt' = o.fmt /\ save' = o.save /\ toks' = <<>> /\ next' = 0 /\ head' = o.head /\ pos' = 0 /\ res' = 0
Put(t) == toks' = Append(toks, t) /\ UNCHANGED <<fmt, save, head, pos>>
WriteEntry(o) == Put(IF "txt" \in DOMAIN o THEN [k |-> o.kind, name |-> o.name, v |-> o.v, txt |-> o.txt, back |-> o.back]
                     ELSE [k |-> o.kind, name |-> o.name, v |-> o.v]) /\ UNCHANGED next /\ res' = 0
IsEmptyClass(c) == c = <<37>>
WriteBegin(o) == LET i == IF IsEmptyClass(o.cls) THEN 0 ELSE next IN
                 Put([k |-> "begin", name |-> o.name, cls |-> o.cls, ver |-> o.ver, idx |-> i])
                 /\ next' = (IF IsEmptyClass(o.cls) THEN next ELSE next + 1) /\ res' = i
WriteEnd(o) == Put([k |-> "end"]) /\ UNCHANGED next /\ res' = 0
WriteRef(o) == toks' = toks \o << [k |-> "begin", name |-> o.name, cls |-> <<Sec>>, ver |-> 0, idx |-> o.idx], [k |-> "end"] >>
               /\ UNCHANGED <<fmt, save, next, head, pos>> /\ res' = 0
Quiet == UNCHANGED <<fmt, save, toks, next, head, pos>> /\ res' = 0

-----------------------------------------------------------------------------------------------------------------------------
(* Reading *)
At == toks[pos]
AtToken == pos <= Len(toks)
Move(p, r) == pos' = p /\ res' = r /\ UNCHANGED <<fmt, save, toks, next, head>>
Open(o) == pos' = 1 /\ UNCHANGED <<fmt, save, toks, next, head>> /\ res' = [fmt |-> fmt, save |-> save]
\* An archive that did not come from this library: its tokens are given along with its bytes
Foreign(o) == fmt' = o.fmt /\ save' = o.save /\ toks' = o.toks /\ next' = 0 /\ head' = 0 /\ pos' = 1
              /\ res' = [fmt |-> o.fmt, save |-> o.save, archiver |-> o.archiver, date |-> o.date, user |-> o.user]

SafeClass(k) == SafeTag[k]
Same(k, j) == IF fmt = "ascii" THEN AsciiType(k) = AsciiType(j) ELSE IF fmt = "binsafe" THEN SafeClass(k) = SafeClass(j) ELSE k = j \/ (j = "rawf" /\ k \in {"vec2", "bbox"})
Truncated(t) == IF fmt = "ascii" /\ "back" \in DOMAIN t THEN t.back ELSE t.v
\* What reading kind gives where t is stored. Kinds that share a representation can stand in for each other only if the
\* value fits; the only such pairs a reader may mix up are integers of several widths in ASCII archives.
ValueAs(kind, t) ==
  IF kind = t.k THEN (CASE kind = "enum" /\ fmt = "binary" -> <<0, t.v[2] % 256>>
                        [] kind = "float" /\ fmt = "ascii" -> t.back[1]
                        [] kind \in {"vec3", "vec2", "bbox"} /\ fmt = "ascii" -> t.back
                        [] OTHER -> t.v)
  ELSE IF kind = "int" /\ t.k \in {"byte", "word"} THEN NatWord(t.v)
  ELSE IF kind = "byte" /\ t.k = "int" THEN t.v[2] % 256
  ELSE IF kind = "word" /\ t.k = "int" THEN t.v[2]
  ELSE IF kind = "word" /\ t.k = "byte" THEN t.v
  ELSE IF kind = "byte" /\ t.k = "word" THEN t.v % 256
  ELSE IF kind = "vec2" /\ t.k \in {"bbox", "rawf"} THEN SubSeq(Truncated(t), 1, 2)
  ELSE IF kind = "bbox" /\ t.k = "rawf" THEN SubSeq(Truncated(t), 1, 6)
  ELSE <<>>
Err == [err |-> TRUE]
ReadEntry(o) ==
  IF AtToken /\ IsEntry(At) /\ Same(o.kind, At.k) THEN Move(pos + 1, [v |-> ValueAs(o.kind, At)])
  ELSE Move(Len(toks) + 2, Err)                               \* the reader cannot be used any further
RawBytes(t) == IF t.k = "mat3" THEN WordsBytes(Transposed(t.v)) ELSE t.v
ReadRaw(o) ==
  IF AtToken /\ IsEntry(At) /\ Same("raw", At.k) /\ Len(RawBytes(At)) >= o.n THEN Move(pos + 1, [v |-> RawBytes(At)])
  ELSE Move(Len(toks) + 2, Err)
ReadBegin(o) == IF AtToken /\ At.k = "begin" THEN Move(pos + 1, [name |-> At.name, cls |-> At.cls, ver |-> At.ver, idx |-> At.idx])
                ELSE Move(pos, FALSE)
ReadEnd(o) == IF AtToken /\ At.k = "end" THEN Move(pos + 1, TRUE) ELSE Move(pos, FALSE)
RECURSIVE Behind(_, _)
Behind(i, level) == IF level = 0 THEN i
                    ELSE IF toks[i].k = "begin" THEN Behind(i + 1, level + 1)
                    ELSE IF toks[i].k = "end" THEN Behind(i + 1, level - 1)
                    ELSE Behind(i + 1, level)
Skip(o) == IF o.current THEN Move(Behind(pos, 1), 0) ELSE Move(Behind(pos + 1, 1), 0)

Step(o) == CASE o.op = "create" -> Create(o)
             [] o.op = "w" -> WriteEntry(o)
             [] o.op = "begin_object" -> WriteBegin(o)
             [] o.op = "end_object" -> WriteEnd(o)
             [] o.op = "ref" -> WriteRef(o)
             [] o.op \in {"clock", "header", "finish", "cut"} -> Quiet
             [] o.op = "open" -> Open(o)
             [] o.op = "foreign" -> Foreign(o)
             [] o.op = "r" -> ReadEntry(o)
             [] o.op = "rraw" -> ReadRaw(o)
             [] o.op = "rbegin" -> ReadBegin(o)
             [] o.op = "rend" -> ReadEnd(o)
             [] o.op = "skip" -> Skip(o)
============================================================================================================================
