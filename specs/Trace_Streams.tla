--------------------------------------------------- MODULE Trace_Streams ---------------------------------------------------
EXTENDS Streams, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Reset == data' = <<>> /\ pos' = 0 /\ cap' = -1 /\ res' = [v |-> 0]
Consume(e) ==
  IF e.op = "begin" THEN Reset
  ELSE /\ Step(e)
       /\ ("v" \in DOMAIN e.res => res'.v = e.res.v)
       /\ pos' = e.res.pos
       /\ ("eof" \in DOMAIN e.res => e.res.eof = (pos' >= Len(data')))
       /\ ("bytes" \in DOMAIN e.res => e.res.bytes = data')
TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Consume(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
============================================================================================================================
