---------------------------------------------------- MODULE MC_Cutscene ----------------------------------------------------
(* All short histories of loading cutscene libraries, one after the other into the same object, and looking for blocks.     *)
(* The binary search over the sorted names (Hit) is checked against the definition: a name is found iff it is there.        *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS MaxLen, MaxBlocks, Emitting
VARIABLES blocks, found, hist
cvars == <<blocks, found, hist>>
Names == {<<>>, <<65>>, <<65, 66>>, <<65, 98>>, <<66>>, <<97>>, <<255>>}
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Sorted(S) == SortSeq(SetToSeq(S), Less)
RECURSIVE Bound(_, _, _, _)                  \* the first position whose name is not less than n
Bound(s, lo, hi, n) == IF lo = hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF Less(s[m], n) THEN Bound(s, m + 1, hi, n) ELSE Bound(s, lo, m, n)
Hit(s, n) == LET i == Bound(s, 1, Len(s) + 1, n) IN i <= Len(s) /\ s[i] = n
Libs == UNION {kSubset(k, Names) : k \in 0 .. MaxBlocks}
CInit == blocks = <<>> /\ found = TRUE /\ hist = <<>>
Load == \E L \in Libs : blocks' = Sorted(L) /\ found' = found /\ hist' = Append(hist, [op |-> "lib", names |-> SetToSeq(L)])
Find == \E n \in Names : found' = Hit(blocks, n) /\ blocks' = blocks /\ hist' = Append(hist, [op |-> "find", name |-> n])
CSpec == CInit /\ [][Len(hist) < MaxLen /\ (Load \/ Find)]_cvars
Emit == Emitting => PrintT("SCN" \o ToJson(hist'))
LastOp == hist[Len(hist)]
RECURSIVE Current(_)
Current(h) == IF h = <<>> THEN {} ELSE IF h[Len(h)].op = "lib" THEN ToSet(h[Len(h)].names) ELSE Current(SubSeq(h, 1, Len(h) - 1))
FoundIffThere == hist # <<>> /\ LastOp.op = "find" => found = (LastOp.name \in Current(hist))
Replaced == ToSet(blocks) = Current(hist) /\ \A i \in 1 .. Len(blocks) - 1 : Less(blocks[i], blocks[i + 1])
============================================================================================================================
