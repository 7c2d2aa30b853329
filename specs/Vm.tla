--------------------------------------------------------- MODULE Vm --------------------------------------------------------
(* The Daedalus virtual machine: a stack machine with call frames, instances, host callbacks and an error strategy.        *)
(* The whole machine is one record m; Micro(m) is one instruction (or one step of unwinding after an error). The host      *)
(* drives it with Start(m, op), after which the machine runs until m.mode = "done".                                        *)
(*   m.prog   symbol table, code bytes, execution flags                                                                    *)
(*   m.vals   the values of the non-member symbols (sequences; integers also stand for float bit patterns)                 *)
(*   m.insts  instances: class, kind of storage, member values                                                             *)
(*   m.stack  operand stack;  m.calls call frames;  m.pc;  m.cur current instance (0: none)                                 *)
(*   m.ext / m.ovr / m.dflt / m.trap / m.hnd   what the host registered                                                    *)
(*   m.log    what callbacks saw;  m.res  result of the host call                                                          *)
EXTENDS Word32, Sequences, SequencesExt, FiniteSets, TLC

VOID == 0  FLOAT == 1  INT == 2  STR == 3  CLASS == 4  FUNC == 5  PROTO == 6  INST == 7
StackLimit == 2048
Sizes == [BIG |-> {61, 62, 64, 65, 67, 75, 76, 80}]

VmErr == "DaedalusVmException"
ErrType == "DaedalusIllegalTypeAccess"
ErrIndex == "DaedalusIllegalIndexAccess"
ErrConst == "DaedalusIllegalConstAccess"
ErrContext == "DaedalusNoContextError"
ErrForeign == "DaedalusIllegalContextType"
ErrForeignOpaque == "DaedalusIllegalInstanceAccess"
ErrUnbound == "DaedalusUnboundMemberAccess"

Sym(m, i) == m.prog.syms[i + 1]
NSym(m) == Len(m.prog.syms)
UpName(s) == s                                   \* names in scenarios are upper case; other spellings travel in op.as
FindName(m, n) == LET c == {i \in 0 .. NSym(m) - 1 : Sym(m, i).name = n} IN IF c = {} THEN -1 ELSE CHOOSE i \in c : \A j \in c : j <= i
Addressed(s) == s.type \in {PROTO, INST} \/ (s.type = FUNC /\ s.const /\ ~s.member)
FindAddr(m, a) == LET c == {i \in 0 .. NSym(m) - 1 : Addressed(Sym(m, i)) /\ Sym(m, i).addr = a} IN IF c = {} THEN -1 ELSE CHOOSE i \in c : \A j \in c : j <= i
Params(m, i) == [k \in 1 .. Sym(m, i).count |-> i + k]
\* local variables: the symbols behind the parameters of the function that are named "FUNCTION.something" (field .of)
RECURSIVE LocalsFrom(_, _, _)
LocalsFrom(m, f, i) == IF i < NSym(m) /\ Sym(m, i).of = Sym(m, f).name THEN <<i>> \o LocalsFrom(m, f, i + 1) ELSE <<>>
Variables(m, f) == LocalsFrom(m, f, f + 1 + Sym(m, f).count)

\* ------------------------------------------------------------------------------------------------------ stack entries
EInt(v) == [k |-> "int", v |-> v, s |-> "", x |-> 0, c |-> 0]
EFloat(v) == [k |-> "float", v |-> v, s |-> "", x |-> 0, c |-> 0]
EInst(v) == [k |-> "inst", v |-> v, s |-> "", x |-> 0, c |-> 0]
EStr(s) == [k |-> "str", v |-> 0, s |-> s, x |-> 0, c |-> 0]          \* a string held by no variable
ERef(i, x, c) == [k |-> "ref", v |-> i, s |-> "", x |-> x, c |-> c]

Fail(m, cls) == [m EXCEPT !.mode = "raise", !.err = [cls |-> cls, script |-> TRUE]]
Push(m, e) == IF Len(m.stack) >= StackLimit THEN Fail(m, VmErr) ELSE [m EXCEPT !.stack = Append(@, e)]
Default(t) == CASE t = FLOAT -> <<EFloat(0)>> [] t \in {INT, FUNC} -> <<EInt(0)>> [] t = STR -> <<EStr("")>> [] t = INST -> <<EInst(0)>> [] OTHER -> <<>>
PushDefault(m, t) == IF Len(m.stack) >= StackLimit THEN m ELSE [m EXCEPT !.stack = @ \o Default(t)]
Keep(m, n) == [m EXCEPT !.stack = IF Len(@) > n THEN SubSeq(@, 1, n) ELSE @]

\* ---------------------------------------------------------------------------------------------------- variable access
Yes(v) == [ok |-> TRUE, v |-> v, e |-> ""]
No(e) == [ok |-> FALSE, v |-> 0, e |-> e]
ClassOf(m, i) == Sym(m, i).parent                          \* of a member
MemberErr(m, i, ctx) ==
  LET o == m.insts[ctx] cls == ClassOf(m, i) reg == Sym(m, cls).reg IN
  IF o.kind = "transient" THEN ""
  ELSE IF reg = "" THEN ErrUnbound
  ELSE IF o.kind # reg THEN ErrForeign
  ELSE IF reg = "opaque" /\ o.cls # cls THEN ErrForeignOpaque
  ELSE ""
\* "" if the variable i[x] of one of the types can be accessed in the context, else the error
AccessErr(m, i, x, ctx, types) ==
  IF Sym(m, i).type \notin types \/ (Sym(m, i).type = FUNC /\ Sym(m, i).const) THEN ErrType
  ELSE IF x >= Sym(m, i).count THEN ErrIndex
  ELSE IF Sym(m, i).member THEN (IF ctx = 0 THEN ErrContext ELSE MemberErr(m, i, ctx))
  ELSE ""
NullOk(m, i, ctx) == Sym(m, i).member /\ ctx = 0 /\ m.prog.nullok
ValueOf(m, i, x, ctx) == IF Sym(m, i).member THEN m.insts[ctx].mem[i + 1][x + 1] ELSE m.vals[i + 1][x + 1]
Load(m, i, x, ctx, types, zero) ==
  IF Sym(m, i).member /\ ctx = 0 THEN (IF m.prog.nullok THEN Yes(zero) ELSE No(ErrContext))
  ELSE LET e == AccessErr(m, i, x, ctx, types) IN IF e # "" THEN No(e) ELSE Yes(ValueOf(m, i, x, ctx))
StoreErr(m, i, x, ctx, types) ==
  IF Sym(m, i).const /\ ~m.prog.ignconst THEN ErrConst
  ELSE IF NullOk(m, i, ctx) THEN "" ELSE AccessErr(m, i, x, ctx, types)
Store(m, i, x, ctx, v) ==
  IF NullOk(m, i, ctx) THEN m
  ELSE IF Sym(m, i).member THEN [m EXCEPT !.insts[ctx].mem[i + 1][x + 1] = v]
  ELSE [m EXCEPT !.vals[i + 1][x + 1] = v]
InstOf(m, i) == IF Sym(m, i).type # INST THEN No(ErrType) ELSE Yes(m.vals[i + 1][1])

\* ------------------------------------------------------------------------------------------------------------- popping
Top(m) == m.stack[Len(m.stack)]
Drop1(m) == [m EXCEPT !.stack = Front(@)]
With(r, m) == [ok |-> r.ok, v |-> r.v, e |-> r.e, m |-> m]
PopInt(m) ==
  IF m.stack = <<>> THEN With(Yes(0), m)
  ELSE LET t == Top(m) IN With(CASE t.k = "ref" -> Load(m, t.v, t.x, t.c, {INT, FUNC}, 0)
                                 [] t.k = "int" -> Yes(t.v) [] t.k = "str" -> No(ErrType) [] OTHER -> No(VmErr), Drop1(m))
PopFloat(m) ==
  IF m.stack = <<>> THEN With(Yes(0), m)
  ELSE LET t == Top(m) IN With(CASE t.k = "ref" -> Load(m, t.v, t.x, t.c, {FLOAT}, 0)
                                 [] t.k \in {"int", "float"} -> Yes(t.v) [] t.k = "str" -> No(ErrType) [] OTHER -> No(VmErr), Drop1(m))
PopString(m) ==
  IF m.stack = <<>> THEN With(No(VmErr), m)
  ELSE LET t == Top(m) IN With(CASE t.k = "ref" -> Load(m, t.v, t.x, t.c, {STR}, "")
                                 [] t.k = "str" -> Yes(t.s) [] OTHER -> No(VmErr), Drop1(m))
PopInst(m) ==
  IF m.stack = <<>> THEN With(No(VmErr), m)
  ELSE LET t == Top(m) IN With(CASE t.k = "ref" -> InstOf(m, t.v) [] t.k = "inst" -> Yes(t.v)
                                 [] t.k = "str" -> No(ErrType) [] OTHER -> No(VmErr), Drop1(m))
\* a reference; v is the stack entry itself
PopRef(m) ==
  IF m.stack = <<>> THEN With(No(VmErr), m)
  ELSE With(IF Top(m).k \in {"ref", "str"} THEN Yes(Top(m)) ELSE No(VmErr), Drop1(m))

\* ------------------------------------------------------------------------------------------------------------- frames
Active(m, f) == \E k \in 1 .. Len(m.calls) : m.calls[k].fn = f
Frame(m, f, kind) ==
  LET vs == Variables(m, f)
      n == Len(m.stack) - Sym(m, f).count
  IN [fn |-> f, pc |-> m.pc, sp |-> IF n < 0 THEN 0 ELSE n, cur |-> m.cur, kind |-> kind, cb |-> 0, self |-> -1, want |-> "", base |-> 0,
      keep |-> Sym(m, f).locals /\ Active(m, f),
      saved |-> IF Sym(m, f).locals /\ Active(m, f) THEN [k \in 1 .. Len(vs) |-> m.vals[vs[k] + 1]] ELSE <<>>]
PushFrame(m, fr) == [m EXCEPT !.calls = Append(@, fr)]
TopFrame(m) == m.calls[Len(m.calls)]
RestoreVars(m, fr) ==
  LET vs == Variables(m, fr.fn) IN
  IF ~fr.keep THEN m
  ELSE [m EXCEPT !.vals = [j \in 1 .. Len(m.vals) |-> IF \E k \in 1 .. Len(vs) : vs[k] + 1 = j THEN fr.saved[CHOOSE k \in 1 .. Len(vs) : vs[k] + 1 = j] ELSE m.vals[j]]]
\* a returned reference to one of the function's own variables becomes a value before the variable is restored
Settle(m, fr, e) ==
  LET vs == Variables(m, fr.fn) IN
  IF ~fr.keep \/ e.k # "ref" \/ ~\E k \in 1 .. Len(vs) : vs[k] = e.v THEN e
  ELSE LET t == Sym(m, e.v).type IN
       IF e.x >= Sym(m, e.v).count THEN e
       ELSE CASE t \in {INT, FUNC} -> EInt(m.vals[e.v + 1][e.x + 1]) [] t = FLOAT -> EFloat(m.vals[e.v + 1][e.x + 1])
              [] t = STR -> EStr(m.vals[e.v + 1][e.x + 1]) [] t = INST -> EInst(m.vals[e.v + 1][1]) [] OTHER -> e
Leave(m, fr) == [RestoreVars(m, fr) EXCEPT !.pc = fr.pc, !.cur = fr.cur, !.calls = Front(@)]
\* the function of the top frame returns normally
Returned(m) ==
  LET fr == TopFrame(m) f == Sym(m, fr.fn) n == Len(m.stack) - fr.sp IN
  IF ~f.ret THEN Leave(Keep(m, fr.sp), fr)
  ELSE IF n <= 0 THEN Leave(PushDefault(m, f.rtype), fr)
  ELSE LET e == Settle(m, fr, Top(m)) IN Leave([Keep(m, fr.sp) EXCEPT !.stack = Append(@, e)], fr)
\* the function of the top frame is abandoned because of an error
Abandoned(m) == LET fr == TopFrame(m) f == Sym(m, fr.fn) IN Leave(PushDefault(Keep(m, fr.sp), IF f.ret THEN f.rtype ELSE VOID), fr)

\* -------------------------------------------------------------------------------------------------------- instructions
B8(m, a) == IF a < Len(m.prog.code) THEN m.prog.code[a + 1] ELSE 0
B16(m, a) == B8(m, a) + 256 * B8(m, a + 1)
B32(m, a) == Join(B16(m, a + 2), B16(m, a))
Op(m) == B8(m, m.pc)
Arg(m) == B32(m, m.pc + 1)
Size(m) == IF Op(m) \in Sizes.BIG THEN 5 ELSE IF Op(m) = 245 THEN 6 ELSE 1
Adv(m) == IF m.mode = "run" THEN [m EXCEPT !.pc = @ + Size(m)] ELSE m
Known(m, i) == i >= 0 /\ i < NSym(m)
Jump(m, a) == IF a < 0 \/ a >= Len(m.prog.code) THEN Fail(m, VmErr) ELSE [m EXCEPT !.pc = a]

Bin(m, F(_, _)) ==
  LET a == PopInt(m) IN IF ~a.ok THEN Fail(a.m, a.e) ELSE
  LET b == PopInt(a.m) IN IF ~b.ok THEN Fail(b.m, b.e) ELSE Adv(Push(b.m, EInt(F(a.v, b.v))))
BinDiv(m, F(_, _)) ==
  LET a == PopInt(m) IN IF ~a.ok THEN Fail(a.m, a.e) ELSE
  LET b == PopInt(a.m) IN IF ~b.ok THEN Fail(b.m, b.e) ELSE IF b.v = 0 THEN Fail(b.m, VmErr) ELSE Adv(Push(b.m, EInt(F(a.v, b.v))))
Un(m, F(_)) == LET a == PopInt(m) IN IF ~a.ok THEN Fail(a.m, a.e) ELSE Adv(Push(a.m, EInt(F(a.v))))

\* assignment of a popped value through a popped reference
Assign(m, Pop(_), types) ==
  LET r == PopRef(m) IN IF ~r.ok THEN Fail(r.m, r.e) ELSE
  LET v == Pop(r.m) IN IF ~v.ok THEN Fail(v.m, v.e) ELSE
  IF r.v.k = "str" THEN (IF STR \in types THEN Adv(v.m) ELSE Fail(v.m, ErrType))
  ELSE LET e == StoreErr(v.m, r.v.v, r.v.x, r.v.c, types) IN
       IF e # "" THEN Fail(v.m, e) ELSE Adv(Store(v.m, r.v.v, r.v.x, r.v.c, v.v))
Compound(m, F(_, _), zero) ==
  LET r == PopRef(m) IN IF ~r.ok THEN Fail(r.m, r.e) ELSE
  LET v == PopInt(r.m) IN IF ~v.ok THEN Fail(v.m, v.e) ELSE
  IF zero /\ v.v = 0 THEN Fail(v.m, VmErr)
  ELSE IF r.v.k = "str" THEN Fail(v.m, ErrType)
  ELSE LET e == StoreErr(v.m, r.v.v, r.v.x, r.v.c, {INT, FUNC}) IN
       IF e # "" THEN Fail(v.m, e)
       ELSE IF NullOk(v.m, r.v.v, r.v.c) THEN Adv(v.m)
       ELSE Adv(Store(v.m, r.v.v, r.v.x, r.v.c, F(ValueOf(v.m, r.v.v, r.v.x, r.v.c), v.v)))
AssignInst(m) ==
  LET r == PopRef(m) IN IF ~r.ok THEN Fail(r.m, r.e) ELSE
  LET v == PopInst(r.m) IN IF ~v.ok THEN Fail(v.m, v.e) ELSE
  IF r.v.k = "str" \/ (r.v.k = "ref" /\ Sym(m, r.v.v).type # INST) THEN Fail(v.m, ErrType)
  ELSE Adv([v.m EXCEPT !.vals[r.v.v + 1][1] = v.v])
PushVar(m, i, x, trapped) ==
  IF ~Known(m, i) THEN Fail(m, VmErr)
  ELSE IF trapped /\ Sym(m, i).trap /\ m.trap.on THEN Adv(Push([m EXCEPT !.log = Append(@, [k |-> "trap", name |-> Sym(m, i).name])], EInt(m.trap.v)))
  ELSE Adv(Push(m, ERef(i, x, m.cur)))

\* ---------------------------------------------------------------------------------------------------- host callbacks
\* pops the arguments of a callback with parameter types ps, last first; instances must be of the declared kind
\* the function an index stands for: variables of function type are followed; -1 if it is no function
RECURSIVE FuncOf(_, _)
FuncOf(m, i) == IF ~Known(m, i) THEN -1 ELSE IF Sym(m, i).type # FUNC THEN -1 ELSE IF Sym(m, i).const THEN i ELSE FuncOf(m, m.vals[i + 1][1])
KindOf(p) == CASE p = "N" -> "n" [] p = "a" -> "A" [] OTHER -> p
CbPop(m, p) ==
  CASE p \in {"i", "b", "F"} -> PopInt(m) [] p = "f" -> PopFloat(m) [] p = "s" -> PopString(m)
    [] p = "y" -> PopRef(m)
    [] OTHER -> LET v == PopInst(m) IN
         IF ~v.ok THEN v
         ELSE IF v.v # 0 /\ KindOf(p) # "n" /\ m.insts[v.v].kind # KindOf(p) THEN With(No(VmErr), v.m)
         ELSE v
Tag(m, p, v) == CASE p = "F" -> <<"F", FuncOf(m, v)>> [] p = "y" -> <<"y", v.v>> [] p = "i" -> <<"i", v>> [] p = "b" -> <<"b", IF v = 0 THEN 0 ELSE 1>> [] p = "f" -> <<"f", v>> [] p = "s" -> <<"s", v>> [] OTHER -> <<"n", v>>
RECURSIVE CbArgs(_, _, _)
CbArgs(m, ps, acc) ==                             \* [ok, e, m, v: tagged arguments]
  IF ps = <<>> THEN [ok |-> TRUE, e |-> "", m |-> m, v |-> acc]
  ELSE LET r == CbPop(m, ps[Len(ps)]) IN
       IF ~r.ok THEN [ok |-> FALSE, e |-> r.e, m |-> r.m, v |-> acc]
       ELSE CbArgs(r.m, Front(ps), <<Tag(m, ps[Len(ps)], r.v)>> \o acc)
CbValue(t, v) == CASE t \in {"i", "b"} -> <<EInt(v)>> [] t = "f" -> <<EFloat(v)>> [] t = "s" -> <<EStr(v)>> [] t \in {"n", "A"} -> <<EInst(v)>> [] OTHER -> <<>>
Unwind(m, cls, script) == [m EXCEPT !.mode = "unwind", !.err = [cls |-> cls, script |-> script]]
\* the callback of the top frame returns its value
FinishCb(m) ==
  LET cb == TopFrame(m).cb IN
  IF cb.ret = "v" THEN Adv(Returned(m))
  ELSE IF Len(m.stack) >= StackLimit THEN Unwind(m, VmErr, TRUE)
  ELSE Adv(Returned([m EXCEPT !.stack = @ \o CbValue(cb.ret, cb.rv)]))
RunCb(m, f, cb) ==
  LET m1 == PushFrame(m, [Frame(m, f, "cb") EXCEPT !.cb = cb])
      a == CbArgs(m1, cb.params, <<>>)
      m2 == [a.m EXCEPT !.log = Append(@, [k |-> "cb", name |-> Sym(m, f).name, id |-> cb.id, args |-> a.v])]
  IN IF ~a.ok THEN Unwind(a.m, a.e, TRUE)
     ELSE CASE cb.act = "ret" -> FinishCb(m2)
            [] cb.act = "throw" -> Unwind(m2, VmErr, TRUE)
            [] cb.act = "throwstd" -> Unwind(m2, "std", FALSE)
            [] cb.act = "call" -> LET t == FindName(m2, cb.target) IN
                                  [PushFrame(m2, [Frame(m2, t, "host") EXCEPT !.base = Len(m2.stack), !.want = "ignore"]) EXCEPT !.pc = Sym(m2, t).addr]
Naked(m, cb) ==                                   \* a naked override has no frame: it works on the caller's stack itself
  LET a == CbArgs(m, cb.params, <<>>)
      m2 == [a.m EXCEPT !.log = Append(@, [k |-> "cb", name |-> "", id |-> cb.id, args |-> a.v])]
  IN Adv([m2 EXCEPT !.stack = @ \o CbValue(cb.ret, cb.rv)])

CallScript(m, f) ==
  LET a == Sym(m, f).addr IN
  IF a < 0 \/ a >= Len(m.prog.code) THEN Unwind(PushFrame(m, Frame(m, f, "script")), VmErr, TRUE)
  ELSE [PushFrame(m, Frame(m, f, "script")) EXCEPT !.pc = a]
ExecBL(m) ==
  LET f == FindAddr(m, Arg(m)) o == {k \in 1 .. Len(m.ovr) : m.ovr[k].addr = Arg(m)} IN
  IF f < 0 THEN Fail(m, VmErr)
  ELSE IF o # {} THEN (LET cb == m.ovr[CHOOSE k \in o : \A j \in o : j <= k].cb IN IF cb.naked THEN Naked(m, cb) ELSE RunCb(m, f, cb))
  ELSE CallScript(m, f)
ExecBE(m) ==
  LET f == Arg(m) IN
  IF ~Known(m, f) THEN Fail(m, VmErr)
  ELSE LET r == {k \in 1 .. Len(m.ext) : m.ext[k].fn = f}
           s == Sym(m, f)
           n == Len(m.stack) - s.count
           m1 == PushDefault(Keep(m, IF n < 0 THEN 0 ELSE n), IF s.ret THEN s.rtype ELSE VOID)
           m2 == [m1 EXCEPT !.log = Append(@, [k |-> "dflt", name |-> s.name])]
       IN IF r # {} THEN RunCb(m, f, m.ext[CHOOSE k \in r : \A j \in r : j <= k].cb)
          ELSE IF m.dflt.on THEN (IF m.dflt.throws THEN Fail(m2, VmErr) ELSE Adv(m2))
          ELSE Fail(PushDefault(m, IF s.ret THEN s.rtype ELSE VOID), VmErr)

\* --------------------------------------------------------------------------------------------------- one instruction
Instr(m) ==
  LET o == Op(m) IN
  CASE o = 0 -> Bin(m, AddW)
    [] o = 1 -> Bin(m, SubW)
    [] o = 2 -> Bin(m, MulW)
    [] o = 3 -> BinDiv(m, DivW)
    [] o = 4 -> BinDiv(m, ModW)
    [] o = 5 -> Bin(m, OrW)
    [] o = 6 -> Bin(m, AndW)
    [] o = 7 -> Bin(m, LAMBDA a, b : BoolInt(a < b))
    [] o = 8 -> Bin(m, LAMBDA a, b : BoolInt(a > b))
    [] o \in {9, 72} -> Assign(m, PopInt, {INT, FUNC})
    [] o = 11 -> Bin(m, LAMBDA a, b : BoolInt(a # 0 \/ b # 0))
    [] o = 12 -> Bin(m, LAMBDA a, b : BoolInt(a # 0 /\ b # 0))
    [] o = 13 -> Bin(m, ShlW)
    [] o = 14 -> Bin(m, SarW)
    [] o = 15 -> Bin(m, LAMBDA a, b : BoolInt(a <= b))
    [] o = 16 -> Bin(m, LAMBDA a, b : BoolInt(a = b))
    [] o = 17 -> Bin(m, LAMBDA a, b : BoolInt(a # b))
    [] o = 18 -> Bin(m, LAMBDA a, b : BoolInt(a >= b))
    [] o = 19 -> Compound(m, AddW, FALSE)
    [] o = 20 -> Compound(m, SubW, FALSE)
    [] o = 21 -> Compound(m, MulW, FALSE)
    [] o = 22 -> Compound(m, DivW, TRUE)
    [] o = 30 -> Un(m, LAMBDA a : a)
    [] o = 31 -> Un(m, NegW)
    [] o = 32 -> Un(m, LAMBDA a : BoolInt(a = 0))
    [] o = 33 -> Un(m, NotW)
    [] o = 45 -> Adv(m)
    [] o = 61 -> ExecBL(m)
    [] o = 62 -> ExecBE(m)
    [] o = 64 -> Adv(Push(m, EInt(Arg(m))))
    [] o \in {65, 67} -> PushVar(m, Arg(m), 0, TRUE)
    [] o = 70 -> Assign(m, PopString, {STR})
    [] o = 71 -> Fail(m, VmErr)
    [] o = 73 -> Assign(m, PopFloat, {FLOAT})
    [] o = 74 -> AssignInst(m)
    [] o = 75 -> Jump(m, Arg(m))
    [] o = 76 -> LET a == PopInt(m) IN IF ~a.ok THEN Fail(a.m, a.e) ELSE IF a.v = 0 THEN Jump(a.m, Arg(m)) ELSE Adv(a.m)
    [] o = 80 -> IF ~Known(m, Arg(m)) THEN Fail(m, VmErr)
                 ELSE LET r == InstOf(m, Arg(m)) IN IF ~r.ok THEN Fail(m, r.e) ELSE Adv([m EXCEPT !.cur = r.v])
    [] o = 245 -> PushVar(m, Arg(m), B8(m, m.pc + 5), FALSE)

\* ------------------------------------------------------------------------------------------- end of a call, and errors
Done(m, r) == [m EXCEPT !.mode = "done", !.res = r]
OkRes(v) == [r |-> "ok", v |-> v, cls |-> ""]
ErrRes(c) == [r |-> "err", v |-> <<>>, cls |-> c]
RestoreSelf(m, fr) == LET s == FindName(m, "SELF") IN
  IF fr.self < 0 \/ s < 0 THEN m ELSE [m EXCEPT !.vals[s + 1] = <<fr.self>>]
HostPop(m, want) == CASE want = "i" -> PopInt(m) [] want = "f" -> PopFloat(m) [] want = "s" -> PopString(m)
                      [] OTHER -> LET v == PopInst(m) IN IF v.ok /\ v.v # 0 /\ m.insts[v.v].kind # want THEN With(No(VmErr), v.m) ELSE v
\* the outermost function of a host call has returned
HostReturn(m) ==
  LET fr == TopFrame(m)
      m1 == RestoreSelf(Returned(m), fr)
      m2 == IF fr.want = "init" THEN [m1 EXCEPT !.cur = fr.cb] ELSE m1
  IN IF Len(m2.calls) > 0                        \* the callback that called goes on
     THEN (LET m3 == IF Sym(m, fr.fn).ret THEN Drop1(m2) ELSE m2 IN FinishCb(m3))
     ELSE IF fr.want \in {"v", "init"} THEN Done(m2, OkRes(<<>>))
     ELSE IF fr.want = "ignore" THEN Done(IF Sym(m, fr.fn).ret THEN Drop1(m2) ELSE m2, OkRes(<<>>))
     ELSE LET v == HostPop(m2, fr.want) IN
          IF ~v.ok THEN Done(v.m, ErrRes(v.e)) ELSE Done(v.m, OkRes(<<fr.want, v.v>>))
Return(m) == IF TopFrame(m).kind = "host" THEN HostReturn(m) ELSE Adv(Returned(m))

\* an error leaves the top frame
LeaveFrame(m) ==
  LET fr == TopFrame(m) IN
  IF fr.kind # "host" THEN [Abandoned(m) EXCEPT !.mode = IF m.err.script THEN "raise" ELSE "unwind"]
  ELSE LET m1 == RestoreSelf(Keep(Abandoned(m), fr.base), fr)
           m2 == IF fr.want = "init" THEN [m1 EXCEPT !.cur = fr.cb] ELSE m1
       IN IF m2.calls = <<>> THEN Done(m2, ErrRes(m.err.cls)) ELSE m2        \* else: the callback that called fails, too

Lenient == {0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18, 30, 31, 32, 33, 64, 65, 67, 245}
Strategy(m) ==
  CASE m.hnd.kind = "none" -> "fail"
    [] m.hnd.kind = "lenient" -> "continue"
    [] OTHER -> LET c == {k \in 1 .. Len(m.hnd.by) : m.hnd.by[k].o = Op(m)} IN IF c = {} THEN m.hnd.dfl ELSE m.hnd.by[CHOOSE k \in c : TRUE].s
Raise(m) ==
  LET m1 == IF m.hnd.kind = "map" THEN [m EXCEPT !.log = Append(@, [k |-> "handler", o |-> Op(m), cls |-> m.err.cls])] ELSE m
      s == Strategy(m)
  IN CASE s = "fail" -> [m1 EXCEPT !.mode = "unwind"]
       [] s = "return" -> Return([m1 EXCEPT !.mode = "run"])
       [] s = "continue" -> Adv([(IF m.hnd.kind = "lenient" /\ Op(m) \in Lenient THEN [m1 EXCEPT !.stack = Append(@, EInt(0))] ELSE m1) EXCEPT !.mode = "run"])

Micro(m) ==
  CASE m.mode = "raise" -> Raise(m)
    [] m.mode = "unwind" -> LeaveFrame(m)
    [] m.mode = "run" -> IF m.pc >= Len(m.prog.code) THEN Unwind(m, VmErr, TRUE)          \* ran off the end of the code
                         ELSE IF Op(m) = 60 THEN Return(m) ELSE Instr(m)

\* ----------------------------------------------------------------------------------------------------- host operations
Fresh == [prog |-> [syms |-> <<>>, code |-> <<>>, nullok |-> FALSE, ignconst |-> FALSE], vals |-> <<>>, insts |-> <<>>, stack |-> <<>>, calls |-> <<>>,
          pc |-> 0, cur |-> 0, ext |-> <<>>, ovr |-> <<>>, dflt |-> [on |-> FALSE, throws |-> FALSE], trap |-> [on |-> FALSE, v |-> 0],
          hnd |-> [kind |-> "none", by |-> <<>>, dfl |-> "fail"], mode |-> "idle", err |-> [cls |-> "", script |-> TRUE], log |-> <<>>, res |-> OkRes(<<>>)]
ZeroOf(s) == [k \in 1 .. s.count |-> IF s.type = STR THEN "" ELSE 0]
NewInst(m, cls, kind) == [cls |-> cls, kind |-> kind,
   mem |-> [j \in 1 .. NSym(m) |-> LET s == Sym(m, j - 1) IN IF s.member /\ (s.parent = cls \/ kind = "transient") THEN ZeroOf(s) ELSE <<>>]]

DoLoad(m, op) == Done([Fresh EXCEPT !.prog = [syms |-> op.syms, code |-> op.code, nullok |-> op.nullok, ignconst |-> op.ignconst],
                                    !.vals = [j \in 1 .. Len(op.syms) |-> op.syms[j].val]], OkRes(<<>>))

\* host calls: refused without any effect if the function or the arguments do not fit
ParamOk(t, p) == CASE p \in {"i", "b", "F"} -> t \in {INT, FUNC} [] p = "f" -> t = FLOAT [] p = "s" -> t = STR [] OTHER -> t = INST
RetOk(t, w) == CASE w = "ignore" -> TRUE [] w = "v" -> t = VOID [] w = "i" -> t \in {INT, FUNC} [] w = "f" -> t = FLOAT [] w = "s" -> t = STR [] OTHER -> t = INST
ArgEntry(a) == CASE a[1] \in {"i", "b"} -> EInt(a[2]) [] a[1] = "f" -> EFloat(a[2]) [] a[1] = "s" -> EStr(a[2]) [] OTHER -> EInst(a[2])
BadArg(m, f, args) == \E k \in 1 .. Len(args) : ~ParamOk(Sym(m, f + k).type, args[k][1])
DoCall(m, op) ==
  LET f == FindName(m, op.fn) IN
  IF f < 0 THEN Done(m, ErrRes(VmErr))
  ELSE IF Sym(m, f).type # FUNC \/ Len(op.args) # Sym(m, f).count \/ ~RetOk(Sym(m, f).rtype, op.want) THEN Done(m, ErrRes(VmErr))
  ELSE IF BadArg(m, f, op.args) THEN Done(m, ErrRes("DaedalusIllegalExternalParameter"))
  ELSE IF Len(m.stack) + Len(op.args) > StackLimit THEN Done(m, ErrRes(VmErr))
  ELSE LET m1 == [m EXCEPT !.stack = @ \o [k \in 1 .. Len(op.args) |-> ArgEntry(op.args[k])], !.mode = "run"]
           m2 == PushFrame(m1, [Frame(m1, f, "host") EXCEPT !.base = Len(m.stack), !.want = op.want])
           a == Sym(m, f).addr
       IN IF a < 0 \/ a >= Len(m.prog.code) THEN Unwind(m2, VmErr, TRUE) ELSE [m2 EXCEPT !.pc = a]

\* the class of an instance symbol: follow prototypes
RECURSIVE ClassUp(_, _)
ClassUp(m, i) == IF ~Known(m, i) THEN -1 ELSE IF Sym(m, i).type = CLASS THEN i ELSE ClassUp(m, Sym(m, i).parent)
DoInit(m, op) ==
  LET i == FindName(m, op.sym)
      cls == IF i < 0 THEN -1 ELSE ClassUp(m, Sym(m, i).parent)
      id == Len(m.insts) + 1
      s == FindName(m, "SELF")
  IN IF i < 0 \/ (i >= 0 /\ Sym(m, i).type # INST) \/ cls < 0 \/ (cls >= 0 /\ Sym(m, cls).reg # op.kind) THEN Done(m, ErrRes(VmErr))
     ELSE LET m1 == [m EXCEPT !.insts = Append(@, NewInst(m, cls, op.kind)), !.vals[i + 1] = <<id>>]
              m2 == [m1 EXCEPT !.cur = id, !.mode = "run", !.vals = IF s < 0 THEN @ ELSE [@ EXCEPT ![s + 1] = <<id>>]]
              m3 == PushFrame(m2, [Frame(m2, i, "host") EXCEPT !.base = Len(m.stack), !.want = "init", !.cb = m.cur, !.self = IF s < 0 THEN -1 ELSE m1.vals[s + 1][1]])
              a == Sym(m, i).addr
          IN IF op.alloc THEN Done(m1, OkRes(<<>>))
             ELSE IF a < 0 \/ a >= Len(m.prog.code) THEN Unwind(m3, VmErr, TRUE) ELSE [m3 EXCEPT !.pc = a]

\* registration of callbacks
RegErr(m, i, cb) ==
  LET s == Sym(m, i) IN
  IF cb.ret # "v" /\ (~s.ret \/ ~(CASE cb.ret \in {"i", "b"} -> s.rtype = INT [] cb.ret = "f" -> s.rtype = FLOAT [] cb.ret = "s" -> s.rtype = STR [] OTHER -> s.rtype = INST))
  THEN "DaedalusIllegalExternalReturnType"
  ELSE IF cb.ret = "v" /\ s.ret THEN "DaedalusIllegalExternalReturnType"
  ELSE IF Len(cb.params) # s.count THEN "DaedalusIllegalExternalDefinition"
  ELSE IF \E k \in 1 .. Len(cb.params) : ~ParamOk(Sym(m, i + k).type, cb.params[k]) THEN "DaedalusIllegalExternalParameter"
  ELSE ""
DoExternal(m, op) ==
  LET i == FindName(m, op.fn) IN
  IF i < 0 THEN Done(m, OkRes(<<>>))
  ELSE IF ~Sym(m, i).ext THEN Done(m, ErrRes(VmErr))
  ELSE LET e == RegErr(m, i, op.cb) IN IF e # "" THEN Done(m, ErrRes(e)) ELSE Done([m EXCEPT !.ext = Append(@, [fn |-> i, cb |-> op.cb])], OkRes(<<>>))
DoOverride(m, op) ==
  LET i == FindName(m, op.fn) IN
  IF i < 0 THEN Done(m, ErrRes("DaedalusSymbolNotFound"))
  ELSE IF Sym(m, i).ext THEN Done(m, ErrRes(VmErr))
  ELSE LET e == IF op.cb.naked THEN "" ELSE RegErr(m, i, op.cb) IN
       IF e # "" THEN Done(m, ErrRes(e)) ELSE Done([m EXCEPT !.ovr = Append(@, [addr |-> Sym(m, i).addr, cb |-> op.cb])], OkRes(<<>>))

DoPush(m, op) == LET n == Len(m.stack) + op.n IN
  IF n > StackLimit THEN Done([m EXCEPT !.stack = @ \o [k \in 1 .. StackLimit - Len(m.stack) |-> ArgEntry(op.v)]], ErrRes(VmErr))
  ELSE Done([m EXCEPT !.stack = @ \o [k \in 1 .. op.n |-> ArgEntry(op.v)]], OkRes(<<>>))
DoPop(m, op) ==
  LET r == CASE op.k = "i" -> PopInt(m) [] op.k = "f" -> PopFloat(m) [] op.k = "s" -> PopString(m) [] op.k = "n" -> PopInst(m)
  IN IF r.ok THEN Done(r.m, OkRes(<<op.k, r.v>>)) ELSE Done(r.m, ErrRes(r.e))

Start(m0, op) ==
  LET m == [m0 EXCEPT !.log = <<>>] IN
  CASE op.op = "load" -> DoLoad(m, op)
    [] op.op = "handler" -> Done([m EXCEPT !.hnd = [kind |-> op.kind, by |-> op.by, dfl |-> op.dfl]], OkRes(<<>>))
    [] op.op = "external" -> DoExternal(m, op)
    [] op.op = "override" -> DoOverride(m, op)
    [] op.op = "default" -> Done([m EXCEPT !.dflt = [on |-> TRUE, throws |-> op.throws]], OkRes(<<>>))
    [] op.op = "trap" -> Done([m EXCEPT !.trap = [on |-> TRUE, v |-> op.v]], OkRes(<<>>))
    [] op.op = "call" -> DoCall(m, op)
    [] op.op = "init" -> DoInit(m, op)
    [] op.op = "transient" -> Done([m EXCEPT !.insts = Append(@, NewInst(m, -1, "transient"))], OkRes(<<>>))
    [] op.op = "setinst" -> LET i == FindName(m, op.sym) IN
                            IF Sym(m, i).type # INST THEN Done(m, ErrRes(ErrType)) ELSE Done([m EXCEPT !.vals[i + 1] = <<op.id>>], OkRes(<<>>))
    [] op.op = "setgi" -> Done([m EXCEPT !.cur = op.id], OkRes(<<>>))
    [] op.op = "push" -> DoPush(m, op)
    [] op.op = "pop" -> DoPop(m, op)
    [] op.op = "locals" -> LET i == FindName(m, op.fn) IN Done([m EXCEPT !.prog.syms[i + 1].locals = op.on], OkRes(<<>>))

\* ---------------------------------------------------------------------------------------- what must hold of every call
HostOp(op) == op.op \in {"call", "init"}
\* before: the machine when the host called; after: the machine when the call has ended
Balanced(op, before, after) ==
  HostOp(op) => /\ after.stack = before.stack
                /\ after.calls = <<>>
                /\ after.cur = before.cur
SelfKept(op, before, after) == LET s == FindName(before, "SELF") IN (op.op = "init" /\ op.sym # "SELF" /\ s >= 0) => after.vals[s + 1] = before.vals[s + 1]
============================================================================================================================
