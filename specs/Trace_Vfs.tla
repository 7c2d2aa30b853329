----------------------------------------------------- MODULE Trace_Vfs -----------------------------------------------------
(* Accepts a recorded sequence of calls iff it is a behaviour of Vfs: every result and the whole tree after every call.    *)
EXTENDS Vfs, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

\* The observed tree: a sequence of nodes, each with its path p of stored names.
ObsKey(e) == [j \in 1 .. Len(e.p) |-> Key(e.p[j])]
ObsNode(e) == IF e.k = "f" THEN FileNode(e.p[Len(e.p)], e.t, e.c) ELSE DirNode(e.p[Len(e.p)], e.t)
SameTree(f, st) ==
  /\ Len(st) = Cardinality(DOMAIN f)
  /\ \A i \in 1 .. Len(st) : ObsKey(st[i]) \in DOMAIN f /\ f[ObsKey(st[i])] = ObsNode(st[i])
  /\ Cardinality({ObsKey(st[i]) : i \in 1 .. Len(st)}) = Len(st)
ResNode(n) == IF n.k = "none" THEN NoNode ELSE IF n.k = "f" THEN FileNode(n.nm, n.t, n.c) ELSE DirNode(n.nm, n.t)
Result(e) ==
  IF "node" \in DOMAIN e.res THEN [e.res EXCEPT !.node = ResNode(e.res.node)] ELSE e.res

\* After a refused catalog the tree is only required to be a readable tree: continue from what is there.
FromObs(st) == [p \in {ObsKey(st[i]) : i \in 1 .. Len(st)} |-> ObsNode(st[CHOOSE i \in 1 .. Len(st) : ObsKey(st[i]) = p])]
Partial(e) == e.op = "disk" /\ ImageKind(e.img) = "catalog" /\ e.res.r = "broken"

Consume(e) ==
  IF e.op = "begin" THEN fs' = EmptyFs /\ res' = [r |-> "none"]
  ELSE IF Partial(e) THEN ~MountImage(fs, e.img, e.policy).ok /\ res' = e.res /\ fs' = FromObs(e.st)
  ELSE Step(e) /\ res' = Result(e) /\ SameTree(fs', e.st)

TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Consume(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
============================================================================================================================
