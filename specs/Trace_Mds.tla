----------------------------------------------------- MODULE Trace_Mds -----------------------------------------------------
EXTENDS Mds, Json, IOUtils
VARIABLES l, last                                          \* last: the bits of what was loaded last
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* records and functions given by TLC are compared field by field, as sequences and records of the trace
Consume(e) ==
  CASE e.op = "begin" -> script' = Nothing /\ res' = "ok" /\ last' = Nothing
    [] e.op = "load" ->
         /\ Load(e.bytes)
         /\ e.res = res'
         /\ IF e.res = "error" THEN last' = Nothing
            ELSE /\ (IF IsCompiled(e.bytes) THEN e.raw ELSE e.out) = script'
                 /\ last' = e.raw
                 /\ e.same => e.raw = last                 \* declares the same as the script loaded before
TraceInit == MInit /\ l = 1 /\ last = Nothing
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Consume(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l, last>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
============================================================================================================================
