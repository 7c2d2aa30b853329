---------------------------------------------------- MODULE Trace_Archive --------------------------------------------------
EXTENDS Archive, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Reset == fmt' = "ascii" /\ save' = FALSE /\ toks' = <<>> /\ next' = 0 /\ head' = 0 /\ pos' = 0 /\ res' = 0
Consume(e) == IF e.op = "begin" THEN Reset
              ELSE /\ Step(e)
                   /\ IF e.op = "finish" THEN File(e.res.bytes)
                      ELSE IF e.res = res' THEN TRUE ELSE PrintT(<<"EXPECTED", e.op, res'>>) /\ FALSE
TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Consume(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
============================================================================================================================
