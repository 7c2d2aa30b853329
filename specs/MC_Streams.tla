---------------------------------------------------- MODULE MC_Streams -----------------------------------------------------
(* All short byte strings over NUL, LF, a blank, a letter and a byte above 127; all short sequences of reads and seeks; and *)
(* all short sequences of writes and seeks on growing and fixed destinations.                                               *)
EXTENDS Streams, Json
CONSTANTS MaxData, MaxLen, Emitting
VARIABLE hist
Alphabet == {0, 10, 32, 65, 200}
Datas == UNION {[1 .. n -> Alphabet] : n \in 0 .. MaxData}
Seeks(name) == [op : {name}, off : {-2, 0, 1, 2}, whence : {"beg", "cur", "end"}]
ReadOps == [op : {"read"}, kind : {"byte", "ushort", "int"}] \cup [op : {"string", "raw"}, n : {2}]
           \cup [op : {"line"}, ignore : {<<>>, <<32, 9, 13, 10>>}] \cup Seeks("seek")
WriteOps == [op : {"write"}, kind : {"byte"}, v : {-2}] \cup [op : {"write"}, kind : {"ushort"}, v : {513}] \cup [op : {"write"}, kind : {"string0"}, v : {<<65>>}]
            \cup Seeks("wseek")
MCInit == Init /\ hist = <<>>
Next == IF hist = <<>>
        THEN \E o \in [op : {"open"}, data : Datas] \cup [op : {"create"}, cap : {-1, 3}, data : {<<>>, <<9, 9>>}] : Step(o) /\ hist' = <<o>>
        ELSE /\ Len(hist) < MaxLen
             /\ \E o \in (IF hist[1].op = "open" THEN ReadOps ELSE WriteOps) :
                  /\ (o.op = "wseek" /\ cap < 0) => Target(o) >= 0
                  /\ Step(o) /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][Next]_<<vars, hist>>
View == <<data, pos, cap, IF hist = <<>> THEN "" ELSE hist[1].op>>
Emit == IF Emitting THEN PrintT("SCN" \o ToJson(hist')) ELSE TRUE
LastOp == hist'[Len(hist')]
Rules == [][ReadingChangesNoByte(LastOp) /\ WritesAreLocal(LastOp) /\ WrittenValuesReadBack(LastOp)]_<<vars, hist>>
============================================================================================================================
