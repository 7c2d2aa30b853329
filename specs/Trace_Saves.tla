---------------------------------------------------- MODULE Trace_Saves ----------------------------------------------------
EXTENDS Saves, Json, IOUtils, SequencesExt
O == INSTANCE Objects WITH heap <- <<>>, cfg <- 0, roots <- <<>>, toks <- <<>>, lib <- <<>>
VARIABLES game, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<svars, game, l>>
Contents(e) == [meta |-> e.meta, state |-> e.state, thumb |-> e.thumb]
Z == <<0, 0>>
\* Games of Gothic 1 keep one value of each symbol and less about the program that made them
Norm(c) == IF game = 2 THEN c
           ELSE [c EXCEPT !.meta.version_point = Z, !.meta.version_int = Z, !.meta.version_app_name = <<>>,
                          !.state.symbols = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.values = <<@[1]>>]]]
Strip(c) == [c EXCEPT !.thumb = <<>>]
C == [g |-> game, save |-> TRUE, pack |-> TRUE]
Toks(objs, roots) == O!Stored(O!Kept(objs, C, {}), C, roots).out
Same(x, e) == LET c == Contents(e) IN
              IF x = c THEN TRUE
              ELSE PrintT("EXPECTED " \o (IF x.meta # c.meta THEN ToString(x.meta) ELSE IF x.state # c.state THEN ToString(x.state) ELSE ToString(x.thumb))) /\ FALSE
Files(s) == (IF s.info THEN {"SAVEINFO.SAV"} ELSE {}) \cup (IF s.dat THEN {"SAVEDAT.SAV"} ELSE {}) \cup (IF s.thumb THEN {"THUMB.SAV"} ELSE {}) \cup (IF s.there THEN {"SAVEHDR.SAV"} ELSE {})
            \cup {n \o ".SAV" : n \in DOMAIN s.worlds} \cup s.extra
Consume(e) ==
  CASE e.op = "begin" -> games' = <<>> /\ slots' = [s \in 1 .. NSlots |-> NoSlot] /\ game' = 1
    [] e.op = "new" -> New(e.obj, Contents(e)) /\ game' = e.game
    [] e.op = "set" -> SetTo(e.obj, Contents(e)) /\ UNCHANGED game
    [] e.op = "save" -> /\ e.res = "ok" /\ Same(games[e.obj].data, e) /\ UNCHANGED game
                        /\ Save(e.obj, e.slot, e.name, Norm(games[e.obj].data), Toks(e.objs, e.roots))
    [] e.op = "load" -> /\ Load(e.obj, e.slot, Strip, Contents(e)) /\ UNCHANGED game
                        /\ (e.res = "ok") = CanLoad(e.slot) /\ Same(games'[e.obj].data, e)
    [] e.op = "world" -> LET name == IF e.name = "" THEN e.current ELSE e.name
                             w == WorldOf(e.obj, name) IN
                         /\ UNCHANGED <<svars, game>> /\ e.res = "ok" /\ e.found = (w # <<>>) /\ Same(games[e.obj].data, e)
                         /\ e.found => O!SameToks(w[1], O!Stored(e.objs, C, e.roots).out)
    [] e.op = "delete" -> Delete(e.slot) /\ UNCHANGED game
    [] e.op = "spoil" -> Spoil(e.slot, e.file) /\ UNCHANGED game
    [] e.op = "list" -> /\ UNCHANGED <<svars, game>>
                        /\ ToSet(e.files) = Files(slots[e.slot])
                        /\ slots[e.slot].there => e.hdr = slots[e.slot].hdr \o ".ZEN"
TraceInit == SInit /\ game = 1 /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Consume(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
============================================================================================================================
