------------------------------------------------------ MODULE MC_Vfs -------------------------------------------------------
(* Small instance of Vfs for exhaustive checking and scenario generation: two names in two spellings, trees of depth two,   *)
(* two timestamps. Every transition of the reachable graph is printed as a scenario.                                       *)
EXTENDS Vfs, Json
CONSTANTS MaxNodes, MaxLen, Emitting
VARIABLE hist

na == <<97>>  \* a
nA == <<65, 32>>  \* "A "
nb == <<98>>
sl == <<47>>
F(n, t) == [k |-> "f", nm |-> n, t |-> t, c |-> <<t>>, ch |-> <<>>]
D(n, t, ch) == [k |-> "d", nm |-> n, t |-> t, c |-> <<>>, ch |-> ch]
Trees == {F(na, 2), F(nA, 3), D(nA, 3, <<F(nb, 2)>>), D(na, 2, <<>>), D(na, 2, <<D(nb, 3, <<F(na, 2)>>)>>), D(na, 3, <<F(nA, 1), D(nb, 1, <<>>)>>)}
Paths == {na, nA \o sl \o nb, sl \o na \o sl \o nA, nb}
Policies == {"none", "all", "newer", "older"}
Ops == [op : {"mkdir"}, path : Paths] \cup [op : {"mount"}, tree : Trees, parent : {<<>>, na, nA \o sl \o nb}, policy : Policies]
       \cup [op : {"remove"}, path : Paths] \cup [op : {"resolve"}, path : Paths] \cup [op : {"find"}, name : {na, nb, nA}]

MCInit == Init /\ hist = <<>>
MCNext == \E o \in Ops : Step(o) /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
View == fs
Bound == Cardinality(DOMAIN fs) <= MaxNodes /\ Len(hist) < MaxLen
Emit == IF Emitting THEN PrintT("SCN" \o ToJson(hist')) ELSE TRUE

LastOp == hist'[Len(hist')]
StepsHonourTheRules ==
  [][ /\ LastOp.op = "mkdir" => MkdirOnlyAdds(LastOp)
      /\ LastOp.op = "remove" => RemoveIsLocal(LastOp)
      /\ LastOp.op = "mount" => MountHonours(LastOp)
      /\ RefusedChangesNothing
      /\ ReadsChangeNothing(LastOp) ]_<<vars, hist>>
============================================================================================================================
