------------------------------------------------------- MODULE Script ------------------------------------------------------
(* Compiled Daedalus scripts as files (D06): the symbol table and the code are what the bytes of the file say, and every   *)
(* lookup finds exactly the symbols that have the key.                                                                     *)
EXTENDS Bytes, TLC

VARIABLES syms,     \* the symbols, in the order of the file (index k is syms[k + 1])
          code,     \* the bytes of the code
          ver, res
vars == <<syms, code, ver, res>>

TVoid == 0  TFloat == 1  TInt == 2  TString == 3  TClass == 4  TFunc == 5  TProto == 6  TInst == 7
None == <<65535, 65535>>                                    \* -1
FConst == 1  FReturn == 2  FMember == 4  FExternal == 8  FMerged == 16
Flag(fl, f) == (fl \div f) % 2 = 1

\* A text ends at NUL, CR or LF, which is consumed.
RECURSIVE TextEnd(_, _)
TextEnd(b, o) == IF o >= Len(b) \/ b[o + 1] \in {0, 10, 13} THEN o ELSE TextEnd(b, o + 1)
Text(b, o) == LET e == TextEnd(b, o) IN [v |-> SubSeq(b, o + 1, e), at |-> MinOf(Len(b), e + 1)]

\* \n and \t are written with two characters
RECURSIVE Unescape(_, _)
Unescape(s, i) == IF i > Len(s) THEN <<>>
                  ELSE IF s[i] = 92 /\ i < Len(s) /\ s[i + 1] = 110 THEN <<10>> \o Unescape(s, i + 2)
                  ELSE IF s[i] = 92 /\ i < Len(s) /\ s[i + 1] = 116 THEN <<9>> \o Unescape(s, i + 2)
                  ELSE <<s[i]>> \o Unescape(s, i + 1)
RECURSIVE Texts(_, _, _, _)
Texts(b, o, n, acc) == IF n = 0 THEN [v |-> acc, at |-> o] ELSE LET t == Text(b, o) IN Texts(b, t.at, n - 1, Append(acc, Unescape(t.v, 1)))

Mask19(w) == <<w[1] % 8, w[2]>>
Mask24(w) == <<w[1] % 256, w[2]>>

\* String constants may be followed by stray bytes: where the parent looks like white space, -1 is looked for up to four bytes ahead.
StrayEnd(b, o) == IF \E d \in 1 .. 4 : o + d + 4 <= Len(b) /\ WordAt(b, o + d) = None
                  THEN CHOOSE d \in 1 .. 4 : o + d + 4 <= Len(b) /\ WordAt(b, o + d) = None /\ \A e \in 1 .. d - 1 : WordAt(b, o + e) # None
                  ELSE 0

\* The symbol at offset o, and the offset behind it
Symbol(b, o0) ==
  LET named == WordAt(b, o0) # <<0, 0>>
      t == IF named THEN Text(b, o0 + 4) ELSE [v |-> <<>>, at |-> o0 + 4]
      gen == t.v # <<>> /\ t.v[1] = 255
      o == t.at
      vary == WordAt(b, o)
      props == WordAt(b, o + 4)
      count == props[2] % 4096
      type == props[2] \div 4096
      flags == props[1] % 64
      member == Flag(flags, FMember)
      body == o + 28
      vals == IF member THEN [v |-> <<>>, at |-> body]
              ELSE CASE type \in {TFloat, TInt} -> [v |-> [i \in 1 .. count |-> WordAt(b, body + 4 * (i - 1))], at |-> body + 4 * count]
                     [] type = TString -> Texts(b, body, count, <<>>)
                     [] type \in {TClass, TInst, TFunc, TProto} -> [v |-> <<>>, at |-> body + 4]
                     [] OTHER -> [v |-> <<>>, at |-> body]
      addr == IF ~member /\ type \in {TInst, TFunc, TProto} THEN WordAt(b, body) ELSE None
      p == WordAt(b, vals.at)
      heur == type = TString /\ ~member /\ Flag(flags, FConst) /\ IsSpace(p[2] % 256)
      stray == IF heur THEN StrayEnd(b, vals.at) ELSE 0
  IN [sym |-> [name |-> IF gen THEN <<36>> \o Tail(t.v) ELSE t.v, gen |-> gen, count |-> count, type |-> type, flags |-> flags,
               offset |-> IF member THEN vary ELSE None,
               size |-> IF ~member /\ type = TClass THEN vary ELSE None,
               rtype |-> IF ~member /\ type = TFunc THEN vary ELSE <<0, 0>>,
               file |-> Mask19(WordAt(b, o + 8)), line |-> Mask19(WordAt(b, o + 12)), lines |-> Mask19(WordAt(b, o + 16)),
               char |-> Mask24(WordAt(b, o + 20)), chars |-> Mask24(WordAt(b, o + 24)),
               val |-> vals.v, addr |-> addr, parent |-> IF stray > 0 THEN None ELSE p],
      at |-> vals.at + stray + 4]

RECURSIVE Symbols(_, _, _, _)
Symbols(b, o, n, acc) == IF n = 0 THEN [syms |-> acc, at |-> o] ELSE LET s == Symbol(b, o) IN Symbols(b, s.at, n - 1, Append(acc, s.sym))
Parse(b) == LET n == WordNat(WordAt(b, 1))
                t == Symbols(b, 5 + 4 * n, n, <<>>)
                k == WordNat(WordAt(b, t.at))
            IN [ver |-> ByteAt(b, 0), syms |-> t.syms, code |-> Slice(b, t.at + 4, k)]

-----------------------------------------------------------------------------------------------------------------------------
Ids == 0 .. Len(syms) - 1
S(i) == syms[i + 1]
IsConst(i) == Flag(S(i).flags, FConst)
IsMember(i) == Flag(S(i).flags, FMember)
\* Of several symbols with the same key, the one declared last is found
LastSym(P(_)) == LET m == {i \in Ids : P(i)} IN IF m = {} THEN -1 ELSE CHOOSE i \in m : \A j \in m : j <= i
ByIndex(w) == IF WordFits(w) /\ WordNat(w) < Len(syms) THEN WordNat(w) ELSE -1
ByName(n) == LET N(i) == S(i).name = Upper(n) IN LastSym(N)
Callable(i) == S(i).type \in {TProto, TInst} \/ (S(i).type = TFunc /\ IsConst(i) /\ ~IsMember(i))
ByAddress(w) == LET A(i) == Callable(i) /\ S(i).addr = w IN LastSym(A)
Params(f) == [k \in 1 .. S(f).count |-> f + k]
\* A function's local variables stand right behind its parameters and are named <function>.<variable>
IsLocalName(n, f) == Len(n) > Len(f) /\ SubSeq(n, 1, Len(f)) = f /\ n[Len(f) + 1] = 46
RECURSIVE LocalsFrom(_, _)
LocalsFrom(f, i) == IF i < Len(syms) /\ IsLocalName(S(i).name, S(f).name) THEN <<i>> \o LocalsFrom(f, i + 1) ELSE <<>>
Locals(f) == LocalsFrom(f, f + S(f).count + 1)
Declared(P(_)) == SelectSeq([k \in 1 .. Len(syms) |-> k - 1], P)
Members(c) == LET M(i) == IsMember(i) /\ S(i).parent = NatWord(c) IN Declared(M)
\* Instances of a class: declared with the class or with one of its prototypes declared before
Instances(n) == LET c == ByName(n)
                    P(i, k) == S(k).type = TProto /\ S(k).parent = NatWord(c) /\ k < i
                    M(i) == S(i).type = TInst /\ IsConst(i) /\ (S(i).parent = NatWord(c) \/ \E k \in Ids : P(i, k) /\ S(i).parent = NatWord(k))
                IN IF c < 0 THEN <<>> ELSE Declared(M)

Instr(a) == LET op == code[a + 1]
                w == WordAt(code, a + 1)
                z == <<0, 0>>
            IN CASE op \in {61, 75, 76} -> [op |-> op, address |-> w, symbol |-> z, immediate |-> z, index |-> 0, size |-> 5]
                 [] op = 64 -> [op |-> op, address |-> z, symbol |-> z, immediate |-> w, index |-> 0, size |-> 5]
                 [] op \in {62, 65, 67, 80} -> [op |-> op, address |-> z, symbol |-> w, immediate |-> z, index |-> 0, size |-> 5]
                 [] op = 245 -> [op |-> op, address |-> z, symbol |-> w, immediate |-> z, index |-> code[a + 6], size |-> 6]
                 [] OTHER -> [op |-> op, address |-> z, symbol |-> z, immediate |-> z, index |-> 0, size |-> 1]

View(i) == LET s == S(i) IN
  [index |-> NatWord(i), name |-> s.name, gen |-> s.gen, count |-> s.count, type |-> s.type, const |-> IsConst(i), ret |-> Flag(s.flags, FReturn),
   member |-> IsMember(i), ext |-> Flag(s.flags, FExternal), merged |-> Flag(s.flags, FMerged), offset |-> s.offset, size |-> s.size,
   rtype |-> s.rtype, file |-> s.file, line |-> s.line, lines |-> s.lines, char |-> s.char, chars |-> s.chars, addr |-> s.addr, parent |-> s.parent,
   val |-> s.val]

Init == syms = <<>> /\ code = <<>> /\ ver = 0 /\ res = 0
Look(r) == UNCHANGED <<syms, code, ver>> /\ res' = r
Step(o) ==
  CASE o.op = "load" -> LET p == Parse(o.data) IN syms' = p.syms /\ code' = p.code /\ ver' = p.ver /\ res' = [n |-> Len(p.syms), size |-> Len(p.code)]
    [] o.op = "by_index" -> Look(ByIndex(o.key))
    [] o.op = "by_name" -> Look(ByName(o.key))
    [] o.op = "by_address" -> Look(ByAddress(o.key))
    [] o.op = "symbol" -> Look(View(o.i))
    [] o.op = "params" -> Look(Params(o.i))
    [] o.op = "locals" -> Look(Locals(o.i))
    [] o.op = "members" -> Look(Members(o.i))
    [] o.op = "instances" -> Look(Instances(o.key))
    [] o.op = "instr" -> Look(Instr(o.at))
============================================================================================================================
