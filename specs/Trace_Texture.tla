--------------------------------------------------- MODULE Trace_Texture ---------------------------------------------------
EXTENDS Texture, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Datas(o) == [i \in 1 .. Len(o.levels) |-> o.levels[i].data]
Seen(x, o) ==
  /\ o.fmt = x.fmt /\ o.w = x.w /\ o.h = x.h /\ o.mips = x.mips /\ o.rw = x.rw /\ o.rh = x.rh /\ o.avg = x.avg /\ Len(o.levels) = x.mips
  /\ o.pal = (IF x.fmt = P8 THEN x.pal ELSE <<>>)
  /\ Datas(o) = x.levels
  /\ \A i \in 1 .. Len(o.levels) : LET v == o.levels[i] IN
       /\ v.w = Dim(x.w, i - 1) /\ v.h = Dim(x.h, i - 1)
       /\ (v.rgba # <<>>) = (x.fmt \in Readable \cup {P8})
       /\ v.rgba # <<>> => Shows(x.fmt, o.pal, v.data, v.w, v.h, v.rgba[1])
Consume(e) ==
  CASE e.op = "begin" -> tex' = NoTex /\ file' = <<>> /\ builder' = <<>>
    [] e.op = "file" -> IF e.bad THEN file' = <<>> /\ UNCHANGED <<tex, builder>> ELSE SetFile(e.x) /\ Assert(e.bytes = FileBytes(e.x) \o e.after, "bytes of texture")
    [] e.op = "load" -> IF file = <<>> THEN e.res = "error" /\ UNCHANGED tvars
                        ELSE Load /\ e.res = "ok" /\ e.left = e.after /\ Seen(tex', e.out)
    [] e.op = "save" -> Save /\ e.res = "ok" /\ Seen(tex, e.out)
    [] e.op = "builder" -> NewBuilder(e.w, e.h)
    [] e.op = "add" -> Add(e.data, e.fmt) /\ e.res = (IF Fits(e.data, e.fmt) THEN "ok" ELSE "error")
    [] e.op = "build" -> IF CanBuild(e.fmt) THEN e.res = "ok" /\ Build(e.fmt, Datas(e.out)) /\ Seen(tex', e.out)
                         ELSE e.res = "error" /\ Build(e.fmt, <<>>)
TraceInit == TInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Consume(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
============================================================================================================================
