---------------------------------------------------- MODULE Trace_Objects --------------------------------------------------
EXTENDS Objects, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Reset == heap' = <<>> /\ cfg' = [g |-> 1, save |-> FALSE, pack |-> TRUE] /\ roots' = <<>> /\ toks' = <<>> /\ lib' = <<>>
Consume(e) == IF e.op = "begin" THEN Reset ELSE OStep(e)
TraceInit == OInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Consume(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<ovars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
============================================================================================================================
