----------------------------------------------------- MODULE MC_Objects ----------------------------------------------------
(* All small object graphs: N objects of the world, each with an AI object that refers to two objects of the world (or to   *)
(* none), stored from several lists of roots. Storing writes every reachable object once, references lead to what has been  *)
(* written before, and reading the tokens gives a graph of the same shape.                                                  *)
EXTENDS Objects, Json
CONSTANTS N, Emitting
VARIABLE stored
mvars == <<ovars, stored>>

Z3 == <<Zero, Zero, Zero>>
DefaultVob == [bbox |-> Z3 \o Z3, position |-> Z3, rotation |-> Z3 \o Z3 \o Z3, show_visual |-> FALSE, sprite_camera_facing_mode |-> Zero, cd_static |-> TRUE, cd_dynamic |-> TRUE,
  vob_static |-> FALSE, dynamic_shadows |-> Zero, physics_enabled |-> FALSE, anim_mode |-> Zero, bias |-> Zero, ambient |-> FALSE, anim_strength |-> Zero, far_clip_scale |-> Zero,
  preset_name |-> <<>>, vob_name |-> <<>>, visual |-> 0, visual_name |-> <<>>, ai |-> 0, event_manager |-> 0, sleep_mode |-> 0, next_on_timer |-> Zero, rigid_body |-> <<>>, children |-> <<>>]
Pairs == [1 .. N -> (0 .. N) \X (0 .. N)]
HeapOf(p) == [i \in 1 .. 2 * N |-> IF i <= N THEN [cls |-> "zCVob", f |-> [DefaultVob EXCEPT !.ai = N + i]]
                                            ELSE [cls |-> "oCAIVobMove", f |-> [vob |-> p[i - N][1], owner |-> p[i - N][2]]]]
RootLists == {<<1>>, <<1, 1>>, <<N, 1>>, <<N, 0, 1>>, <<N + 1, 1>>, <<1, N + 1, N>>}

MCInit == /\ \E p \in Pairs : heap = HeapOf(p)
          /\ roots \in RootLists
          /\ cfg \in {[g |-> g, save |-> FALSE, pack |-> k] : g \in {2}, k \in BOOLEAN}
          /\ toks = <<>> /\ lib = <<>> /\ stored = FALSE
MCNext == ~stored /\ stored' = TRUE /\ toks' = Stored(heap, cfg, roots).out /\ UNCHANGED <<heap, cfg, roots, lib>>
MCSpec == MCInit /\ [][MCNext]_mvars
Emit == Emitting => PrintT("SCN" \o ToJson([refs |-> [i \in 1 .. N |-> <<heap[N + i].f.vob, heap[N + i].f.owner>>], roots |-> roots, pack |-> cfg.pack]))

\* An independent reader: the shape of the stored graph, nodes numbered by their index, edges in order; a node met as % is 0
RECURSIVE Reader(_, _, _, _)
Reader(ts, i, stack, g) ==
  IF i > Len(ts) THEN g
  ELSE LET t == ts[i]
           top == IF stack = <<>> THEN -1 ELSE stack[Len(stack)]
           add(x) == [g EXCEPT ![top] = Append(@, <<t.key, x>>)] IN
    CASE t.k = "begin" /\ t.cls = "%" -> Reader(ts, i + 1, Append(stack, -2), add(0))
      [] t.k = "begin" /\ t.cls = "REF" -> Reader(ts, i + 1, Append(stack, -2), add(t.idx + 1))
      [] t.k = "begin" -> Reader(ts, i + 1, Append(stack, t.idx + 1), add(t.idx + 1) @@ ((t.idx + 1) :> <<>>))
      [] t.k = "end" -> Reader(ts, i + 1, SubSeq(stack, 1, Len(stack) - 1), g)
      [] OTHER -> Reader(ts, i + 1, stack, g)
Read == Reader(toks, 1, <<>>, (-1) :> <<>>)
Begins == SelectSeq(toks, LAMBDA t : t.k = "begin" /\ t.cls \notin {"%", "REF"})
RECURSIVE Reach(_, _)
Reach(S, todo) == IF todo = {} THEN S
  ELSE LET new == (UNION {{e.v : e \in {Body(heap, i, cfg)[j] : j \in {x \in 1 .. Len(Body(heap, i, cfg)) : Body(heap, i, cfg)[x].k = "obj"}}} : i \in todo}) \ ({0} \cup S \cup todo)
       IN Reach(S \cup todo, new)
Reachable == Reach({}, {roots[i] : i \in 1 .. Len(roots)} \ {0})

Once == stored => \A i \in 1 .. Len(Begins) : Begins[i].idx = i - 1
Complete == stored => Len(Begins) = Cardinality(Reachable)
Earlier == stored => \A i \in 1 .. Len(toks) : toks[i].k = "begin" /\ toks[i].cls = "REF" => \E j \in 1 .. i - 1 : toks[j].k = "begin" /\ toks[j].cls \notin {"%", "REF"} /\ toks[j].idx = toks[i].idx
\* The order in which objects are met names the corresponding objects; every edge corresponds
Faithful == stored =>
  LET idx == Stored(heap, cfg, roots).cache
      num(x) == IF x = 0 THEN 0 ELSE idx[x] + 1
      edges(b) == [i \in 1 .. Len(b) |-> <<b[i].key, num(b[i].v)>>]
      objs(b) == SelectSeq(b, LAMBDA t : t.k = "obj")
      r == Read IN
  /\ DOMAIN r = {-1} \cup {num(x) : x \in Reachable}
  /\ [i \in 1 .. Len(r[-1]) |-> r[-1][i][2]] = [i \in 1 .. Len(roots) |-> num(roots[i])]
  /\ \A x \in Reachable : r[num(x)] = edges(objs(Body(heap, x, cfg)))
============================================================================================================================
