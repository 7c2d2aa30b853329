----------------------------------------------------- MODULE MC_Archive ----------------------------------------------------
(* All small archives (nesting, empty objects, references, entries) in all formats, and all ways to read and skip them.    *)
EXTENDS Archive, Json
CONSTANTS MaxToks, Emitting
VARIABLES hist, depth, lvl
mcvars == <<vars, hist, depth, lvl>>
N == <<110>>
Entries == { [op |-> "w", kind |-> "int", name |-> N, v |-> <<65535, 65535>>],
             [op |-> "w", kind |-> "string", name |-> N, v |-> <<91, 93>>],
             [op |-> "w", kind |-> "raw", name |-> N, v |-> <<1, 255>>] }
Begins == { [op |-> "begin_object", name |-> N, cls |-> <<67>>, ver |-> 7], [op |-> "begin_object", name |-> N, cls |-> <<37>>, ver |-> 0] }
Do(o) == Step(o) /\ hist' = Append(hist, o)
\* lvl = objects open at the reader
MCInit == Init /\ hist = <<>> /\ depth = 0 /\ lvl = 0
Write == /\ pos = 0 /\ hist # <<>> /\ UNCHANGED lvl
         /\ \/ /\ Len(toks) + depth < MaxToks
               /\ \/ \E o \in Entries : Do(o) /\ UNCHANGED depth
                  \/ \E o \in Begins : Len(toks) + depth + 2 <= MaxToks /\ Do(o) /\ depth' = depth + 1
                  \/ Len(toks) + depth + 2 <= MaxToks /\ next > 0 /\ Do([op |-> "ref", name |-> N, idx |-> 0]) /\ UNCHANGED depth
            \/ depth > 0 /\ Do([op |-> "end_object"]) /\ depth' = depth - 1
Finish == pos = 0 /\ hist # <<>> /\ depth = 0 /\ toks # <<>> /\ pos' = 1 /\ res' = [fmt |-> fmt, save |-> save]
          /\ hist' = hist \o << [op |-> "finish"], [op |-> "open"] >> /\ UNCHANGED <<fmt, save, toks, next, head, depth, lvl>>
Read == /\ pos > 0 /\ AtToken /\ UNCHANGED depth
        /\ \/ At.k = "begin" /\ Do([op |-> "rbegin"]) /\ lvl' = lvl + 1
           \/ At.k = "begin" /\ Do([op |-> "skip", current |-> FALSE]) /\ UNCHANGED lvl
           \/ At.k = "end" /\ Do([op |-> "rend"]) /\ lvl' = lvl - 1
           \/ lvl > 0 /\ Do([op |-> "skip", current |-> TRUE]) /\ lvl' = lvl - 1
           \/ IsEntry(At) /\ At.k # "raw" /\ Do([op |-> "r", kind |-> At.k]) /\ UNCHANGED lvl
           \/ IsEntry(At) /\ At.k = "raw" /\ Do([op |-> "rraw", n |-> Len(At.v)]) /\ UNCHANGED lvl
           \/ fmt # "binary" /\ At.k # "begin" /\ Do([op |-> "rbegin"]) /\ UNCHANGED lvl
           \/ (fmt # "binary" \/ lvl > 0) /\ At.k # "end" /\ Do([op |-> "rend"]) /\ UNCHANGED lvl
           \/ fmt # "binary" /\ IsEntry(At) /\ At.k # "int" /\ Do([op |-> "r", kind |-> "int"]) /\ UNCHANGED lvl
Start == hist = <<>> /\ \E f \in {"ascii", "binary", "binsafe"} : Do([op |-> "create", fmt |-> f, save |-> FALSE, head |-> 0]) /\ UNCHANGED <<depth, lvl>>
MCNext == Start \/ Write \/ Finish \/ Read
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<vars, depth, lvl>>
Emit == (Emitting /\ pos > 0) => PrintT("SCN" \o ToJson(hist'))
Opens(n) == Cardinality({i \in 1 .. n : toks[i].k = "begin"}) - Cardinality({i \in 1 .. n : toks[i].k = "end"})
\* Whatever was read or skipped, the reader is between two tokens at the nesting depth it believes to be at
DepthRight == (pos > 0 /\ pos <= Len(toks) + 1) => Opens(pos - 1) = lvl
Whole == (pos = Len(toks) + 1 /\ pos > 1) => lvl = 0
IndexesUnique == \A i, j \in 1 .. Len(toks) : (i # j /\ toks[i].k = "begin" /\ toks[j].k = "begin" /\ toks[i].cls = <<67>> /\ toks[j].cls = <<67>>) => toks[i].idx # toks[j].idx
============================================================================================================================
