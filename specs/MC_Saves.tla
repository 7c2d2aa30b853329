----------------------------------------------------- MODULE MC_Saves ------------------------------------------------------
(* All short histories of two games and two slots: contents and worlds are numbered by the step that made them.             *)
EXTENDS Saves, Json, SequencesExt
CONSTANTS NGames, MaxLen, Faults, Emitting
VARIABLES hist, seen
mvars == <<svars, hist, seen>>
Names == {"A", "B"}
Step == Len(hist) + 1
Id(x) == x
Log(r) == hist' = Append(hist, r)
Games == 1 .. NGames
MCInit == SInit /\ hist = <<>> /\ seen = <<>>
NewG == \E o \in Games : o \notin DOMAIN games /\ New(o, 0) /\ seen' = <<>> /\ Log([op |-> "new", obj |-> o])
SetG == \E o \in DOMAIN games : games[o].data < Step /\ (hist[Len(hist)].op # "set") /\ SetTo(o, Step) /\ seen' = <<>> /\ Log([op |-> "set", obj |-> o])
SaveG == \E o \in DOMAIN games, s \in 1 .. NSlots, n \in Names : Save(o, s, n, games[o].data, Step) /\ seen' = <<>> /\ Log([op |-> "save", obj |-> o, slot |-> s, name |-> n])
LoadG == \E o \in DOMAIN games, s \in 1 .. NSlots : Load(o, s, Id, games[o].data) /\ seen' = <<>> /\ Log([op |-> "load", obj |-> o, slot |-> s])
World == \E o \in DOMAIN games, n \in Names : hist[Len(hist)].op # "world" /\ seen' = WorldOf(o, n) /\ UNCHANGED svars /\ Log([op |-> "world", obj |-> o, name |-> n])
Fault == Faults /\ \E s \in 1 .. NSlots : slots[s].there /\ seen' = <<>> /\
  \/ Delete(s) /\ Log([op |-> "delete", slot |-> s])
  \/ \E f \in {"info", "dat"} : Spoil(s, f) /\ Log([op |-> "spoil", slot |-> s, file |-> f])
MCNext == NewG \/ SetG \/ SaveG \/ LoadG \/ World \/ Fault
MCSpec == MCInit /\ [][Len(hist) < MaxLen /\ MCNext]_mvars
Emit == Emitting => PrintT("SCN" \o ToJson(hist'))

\* The same facts told by the history alone: where game o is after the first n steps, and what is kept in slot s of world name n
RECURSIVE At(_, _), Kept(_, _, _), Good(_, _)
Good(s, n) ==                                 \* a complete game is in slot s after n steps
  IF n = 0 THEN FALSE
  ELSE LET h == hist[n] IN IF h.op = "save" /\ h.slot = s THEN TRUE ELSE IF h.op \in {"delete", "spoil"} /\ h.slot = s THEN FALSE ELSE Good(s, n - 1)
At(o, n) == IF n = 0 THEN 0 ELSE LET h == hist[n] IN
  IF h.op = "save" /\ h.obj = o THEN h.slot ELSE IF h.op = "load" /\ h.obj = o /\ Good(h.slot, n - 1) THEN h.slot ELSE At(o, n - 1)
Kept(s, m, n) == IF n = 0 \/ s = 0 THEN 0 ELSE LET h == hist[n] IN
  IF h.op = "save" /\ h.slot = s THEN (IF h.name = m THEN n ELSE IF At(h.obj, n - 1) = 0 THEN 0 ELSE Kept(At(h.obj, n - 1), m, n - 1))
  ELSE IF h.op = "delete" /\ h.slot = s THEN 0 ELSE Kept(s, m, n - 1)
N == Len(hist)
\* A world visited before is found again exactly as it was saved last on the way to the current slot
WorldsKept == N > 0 /\ hist[N].op = "world" => seen = (LET k == Kept(At(hist[N].obj, N - 1), hist[N].name, N - 1) IN IF k = 0 THEN <<>> ELSE <<k>>)
\* Saving to a slot changes no other slot, and loading changes none
Local == [][ LET h == hist'[Len(hist')] IN /\ \A s \in 1 .. NSlots : h.op \in {"new", "set", "load", "world"} \/ h.slot # s => slots'[s] = slots[s]
                                           /\ \A o \in DOMAIN games : h.op \in {"delete", "spoil"} \/ h.obj # o => games'[o] = games[o] ]_mvars
\* What is loaded is what was saved there
LoadedIsSaved == [][ LET h == hist'[Len(hist')] IN h.op = "load" /\ CanLoad(h.slot) => games'[h.obj].data = slots[h.slot].data /\ games'[h.obj].at = h.slot ]_mvars
============================================================================================================================
