----------------------------------------------------- MODULE MC_Script -----------------------------------------------------
(* All small symbol tables: what is encoded is what is parsed, and lookups are consistent with one another.                *)
EXTENDS Script, Json
CONSTANTS MaxSyms, Emitting
VARIABLE table
T(n) == Upper(n)
A == <<65>>  AX == <<65, 46, 88>>  B == <<66>>  AB == <<65, 66>>  G == <<255, 90>>
\* [name, type, count, flags, vary, values/address, parent]
Pool == {
  [n |-> A, t |-> TClass, c |-> 1, f |-> 0, v |-> <<0, 8>>, x |-> <<>>, p |-> None],
  [n |-> AX, t |-> TInt, c |-> 2, f |-> FMember, v |-> <<0, 4>>, x |-> <<>>, p |-> <<0, 0>>],
  [n |-> A, t |-> TFunc, c |-> 0, f |-> FConst, v |-> <<0, 2>>, x |-> <<0, 3>>, p |-> None],
  [n |-> B, t |-> TFunc, c |-> 1, f |-> FConst + FReturn, v |-> <<0, 3>>, x |-> <<0, 3>>, p |-> None],
  [n |-> B, t |-> TFunc, c |-> 1, f |-> 0, v |-> <<0, 0>>, x |-> <<0, 3>>, p |-> None],
  [n |-> AX, t |-> TFloat, c |-> 1, f |-> 0, v |-> <<0, 0>>, x |-> <<<<16256, 1>>>>, p |-> None],
  [n |-> AB, t |-> TString, c |-> 2, f |-> FConst, v |-> <<0, 0>>, x |-> <<<<92, 110>>, <<>>>>, p |-> None],
  [n |-> AB, t |-> TString, c |-> 1, f |-> FConst, v |-> <<0, 0>>, x |-> <<<<65>>>>, p |-> <<0, 32>>],
  [n |-> G, t |-> TString, c |-> 1, f |-> FConst, v |-> <<0, 0>>, x |-> <<<<92>>>>, p |-> None],
  [n |-> B, t |-> TProto, c |-> 0, f |-> FConst, v |-> <<0, 0>>, x |-> <<0, 0>>, p |-> <<0, 0>>],
  [n |-> AB, t |-> TInst, c |-> 0, f |-> FConst, v |-> <<0, 0>>, x |-> <<1, 1>>, p |-> <<0, 0>>],
  [n |-> AB, t |-> TInst, c |-> 0, f |-> FConst, v |-> <<0, 0>>, x |-> <<1, 1>>, p |-> <<0, 1>>],
  [n |-> <<>>, t |-> TInst, c |-> 0, f |-> 0, v |-> <<0, 0>>, x |-> <<65535, 65535>>, p |-> <<0, 0>>] }
EncSym(s) == (IF s.n = <<>> THEN <<0, 0, 0, 0>> ELSE <<1, 0, 0, 0>> \o s.n \o <<10>>) \o WordBytes(s.v) \o WordBytes(<<s.f, s.c + 4096 * s.t>>)
             \o FlattenSeq([i \in 1 .. 5 |-> WordBytes(<<0, i>>)])
             \o (IF s.f \div FMember = 1 THEN <<>>
                 ELSE CASE s.t \in {TInt, TFloat} -> FlattenSeq([i \in 1 .. Len(s.x) |-> WordBytes(s.x[i])])
                        [] s.t = TString -> FlattenSeq([i \in 1 .. Len(s.x) |-> s.x[i] \o <<10>>])
                        [] s.t = TClass -> <<0, 0, 0, 0>>
                        [] OTHER -> WordBytes(s.x))
             \o WordBytes(s.p)
Enc(t) == <<50>> \o WordBytes(<<0, Len(t)>>) \o [i \in 1 .. 4 * Len(t) |-> 7] \o FlattenSeq([i \in 1 .. Len(t) |-> EncSym(t[i])])
          \o WordBytes(<<0, 8>>) \o <<64, 1, 2, 3, 4, 60, 0, 245>>
Tables == UNION {[1 .. n -> Pool] : n \in 0 .. MaxSyms}
MCInit == Init /\ table \in Tables
MCNext == ver = 0 /\ Step([op |-> "load", data |-> Enc(table)]) /\ UNCHANGED table /\ (Emitting => PrintT("SCN" \o ToJson(<<[op |-> "load", data |-> Enc(table)]>>)))
MCSpec == MCInit /\ [][MCNext]_<<vars, table>>
Loaded == ver # 0
Faithful == Loaded => /\ Len(syms) = Len(table) /\ Len(code) = 8
                      /\ \A i \in 1 .. Len(table) : syms[i].type = table[i].t /\ syms[i].count = table[i].c /\ syms[i].parent = table[i].p
                                                    /\ Len(syms[i].name) = Len(table[i].n) /\ syms[i].flags = table[i].f
\* Every symbol is found by its index; by its name and address something that has the name or address is found, and nothing declared later has it
Found == Loaded => \A i \in Ids : /\ ByIndex(NatWord(i)) = i
                                  /\ LET k == ByName(S(i).name) IN k >= i /\ S(k).name = S(i).name
                                  /\ Callable(i) => LET k == ByAddress(S(i).addr) IN k >= i /\ S(k).addr = S(i).addr /\ Callable(k)
OwnersApart == Loaded => \A i, j \in Ids : i # j => Range(Members(i)) \cap Range(Members(j)) = {}
============================================================================================================================
