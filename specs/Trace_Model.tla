---------------------------------------------------- MODULE Trace_Model ----------------------------------------------------
EXTENDS Model, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(k, x, y) == IF IF k = "anim" THEN IsAnim(x, y) ELSE x = y THEN TRUE
               ELSE PrintT("EXPECTED " \o (IF DOMAIN x # DOMAIN y THEN ToString(DOMAIN x) ELSE ToString([f \in {f \in DOMAIN x : x[f] # y[f]} |-> x[f]]))) /\ FALSE
Consume(e) ==
  CASE e.op = "begin" -> obj' = <<>> /\ file' = <<>>
    [] e.op = "save" -> e.res = "ok" /\ IF "x" \in DOMAIN e THEN Make(e.k, e.x, e.v) ELSE Again(e.v)
    [] e.op = "file" -> e.res = "ok" /\ File(e.k, e.x, e.parts) /\ Assert(e.bytes = [i \in 1 .. e.pad |-> 238] \o FileBytes(e.k, e.x, e.parts), "bytes of " \o e.k)
    [] e.op = "load" -> e.res = "ok" /\ Load /\ Is(e.k, obj'[1], e.out) /\ e.left = Len(e.after)
TraceInit == XInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Consume(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<xvars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
============================================================================================================================
