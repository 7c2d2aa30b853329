------------------------------------------------------- MODULE MC_Vm -------------------------------------------------------
(* Vm for exhaustive checking: the host loads every program MAIN of at most MaxLen instructions of a small alphabet, sets   *)
(* every error strategy, calls MAIN and then a probe function. World (symbols, code of the other functions, alphabet,       *)
(* host operations) comes from the check. Every program that was run is printed for replay on the real VM.                  *)
EXTENDS Vm, Json, IOUtils
CONSTANT MaxLen
VARIABLES m, prog, h, step, before
mcvars == <<m, prog, h, step, before>>
World == ndJsonDeserialize(IOEnv.VMWORLD)[1]
Code(p) == World.load.code \o FlattenSeq([k \in 1 .. Len(p) |-> World.alphabet[p[k]]]) \o <<60>>
Programs == UNION {[1 .. n -> 1 .. Len(World.alphabet)] : n \in 1 .. MaxLen}
Ops(p, k) == <<[World.load EXCEPT !.code = Code(p)]>> \o World.pre \o <<World.handlers[k]>> \o World.tail
Settled(x) == [x EXCEPT !.mode = "idle", !.log = <<>>, !.res = OkRes(<<>>)]

MCInit == /\ prog \in Programs /\ h \in 1 .. Len(World.handlers)
          /\ m = Fresh /\ step = 1 /\ before = Fresh
Call == /\ m.mode = "idle" /\ step <= Len(Ops(prog, h))
        /\ m' = Start(m, Ops(prog, h)[step]) /\ before' = m
        /\ UNCHANGED <<prog, h, step>>
Run == m.mode \in {"run", "raise", "unwind"} /\ m' = Micro(m) /\ UNCHANGED <<prog, h, step, before>>
End == /\ m.mode = "done" /\ m' = Settled(m) /\ step' = step + 1 /\ before' = Fresh
       /\ UNCHANGED <<prog, h>>
       /\ IF step = Len(Ops(prog, h)) THEN PrintT("SCN" \o ToJson([p |-> prog, h |-> h])) ELSE TRUE
MCNext == Call \/ Run \/ End
MCSpec == MCInit /\ [][MCNext]_mcvars
Op0 == Ops(prog, h)[step]
\* after every host call the machine is balanced again, whatever went wrong inside
Sane == m.mode = "done" => (Balanced(Op0, before, m) /\ SelfKept(Op0, before, m))
============================================================================================================================
