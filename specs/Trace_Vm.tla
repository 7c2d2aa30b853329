------------------------------------------------------ MODULE Trace_Vm -----------------------------------------------------
(* Every host operation of the trace must end with exactly the machine the specification computes.                         *)
EXTENDS Vm, Json, IOUtils
VARIABLES m, l, before
tvars == <<m, l, before>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Match(e) ==
  /\ e.res.r = m.res.r
  /\ IF m.res.r = "ok" THEN e.res.v = m.res.v ELSE e.res.cls = m.res.cls
  /\ e.res.log = m.log
  /\ e.res.vals = m.vals
  /\ Len(e.res.insts) = Len(m.insts)
  /\ \A k \in 1 .. Len(m.insts) : e.res.insts[k] = m.insts[k].mem
  /\ e.res.cur = m.cur
  /\ e.res.empty = (m.stack = <<>>)
TraceInit == m = Fresh /\ l = 1 /\ before = Fresh /\ TLCSet(42, 1)
Begin == m.mode = "idle" /\ l <= Len(Trace) /\ Trace[l].op = "begin" /\ m' = Fresh /\ l' = l + 1 /\ before' = Fresh /\ TLCSet(42, l + 1)
Call == m.mode = "idle" /\ l <= Len(Trace) /\ Trace[l].op # "begin" /\ m' = Start(m, Trace[l]) /\ before' = m /\ l' = l
Run == m.mode \in {"run", "raise", "unwind"} /\ m' = Micro(m) /\ UNCHANGED <<l, before>>
End == /\ m.mode = "done"
       /\ Match(Trace[l])
       /\ m' = [m EXCEPT !.mode = "idle", !.log = <<>>, !.res = OkRes(<<>>)]
       /\ before' = Fresh
       /\ l' = l + 1 /\ TLCSet(42, l + 1)
TraceNext == Begin \/ Call \/ Run \/ End
TraceSpec == TraceInit /\ [][TraceNext]_tvars
\* the model's own rules are evaluated along the way, too
Sane == m.mode = "done" => (Balanced(Trace[l], before, m) /\ SelfKept(Trace[l], before, m))
TraceAccepted == IF TLCGet(42) = Len(Trace) + 1 THEN TRUE
                 ELSE PrintT(<<"REJECTED", TLCGet(42)>>) /\ FALSE
============================================================================================================================
