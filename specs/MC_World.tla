------------------------------------------------------ MODULE MC_World -----------------------------------------------------
(* All small worlds: every forest of up to N objects in which some are of a class unknown to the reader, and every way-net  *)
(* of up to P points (free or not) and E edges. What is stored decodes to the same forest and net, and leaving out unknown  *)
(* objects removes exactly them and what is below them.                                                                     *)
EXTENDS Objects, Json
CONSTANTS N, P, E1, Emitting
VARIABLES parent, unknown, stored
mvars == <<ovars, parent, unknown, stored>>

Z3 == <<Zero, Zero, Zero>>
Vob0 == [bbox |-> Z3 \o Z3, position |-> Z3, rotation |-> Z3 \o Z3 \o Z3, show_visual |-> FALSE, sprite_camera_facing_mode |-> Zero, cd_static |-> TRUE, cd_dynamic |-> TRUE,
  vob_static |-> FALSE, dynamic_shadows |-> Zero, physics_enabled |-> FALSE, anim_mode |-> Zero, bias |-> Zero, ambient |-> FALSE, anim_strength |-> Zero, far_clip_scale |-> Zero,
  preset_name |-> <<>>, vob_name |-> <<>>, visual |-> 0, visual_name |-> <<>>, ai |-> 0, event_manager |-> 0, sleep_mode |-> 0, next_on_timer |-> Zero, rigid_body |-> <<>>, children |-> <<>>]
\* Objects: 1 the world, 2 the way-net, then N objects, then P points
V(i) == 2 + i
W(j) == 2 + N + j
Kids(p, i) == SelectSeq([j \in 1 .. N |-> j], LAMBDA j : p[j] = i)
Num2(s) == [k \in 1 .. Len(s) |-> V(s[k])]
HeapOf(p, u, free, edges) ==
  [i \in 1 .. 2 + N + P |->
     IF i = 1 THEN [cls |-> "oCWorld", f |-> [world_vobs |-> Num2(Kids(p, 0)), way_net |-> 2, npcs |-> <<>>, npc_spawns |-> <<>>, npc_spawn_enabled |-> FALSE, npc_spawn_flags |-> Zero, player |-> 0, sky_controller |-> 0]]
     ELSE IF i = 2 THEN [cls |-> "zCWayNet", f |-> [points |-> [j \in 1 .. P |-> W(j)], edges |-> [k \in 1 .. Len(edges) |-> <<W(edges[k][1]), W(edges[k][2])>>]]]
     ELSE IF i <= 2 + N THEN [cls |-> IF (i - 2) \in u THEN "zCVobSpot" ELSE "zCVob", f |-> [Vob0 EXCEPT !.children = Num2(Kids(p, i - 2)), !.vob_name = <<64 + i>>]]
     ELSE [cls |-> "zCWaypoint", f |-> [name |-> <<64 + i>>, water_depth |-> Zero, under_water |-> FALSE, position |-> Z3, direction |-> Z3, free_point |-> (i - 2 - N) \in free]]]
EdgeLists == UNION {[1 .. n -> (1 .. P) \X (1 .. P)] : n \in 0 .. E1}
\* Points that are not free are kept because an edge leads to them
Storable(free, edges) == \A j \in 1 .. P : j \in free \/ \E k \in 1 .. Len(edges) : j \in {edges[k][1], edges[k][2]}

MCInit == /\ parent \in {p \in [1 .. N -> 0 .. N - 1] : \A i \in 1 .. N : p[i] < i}
          /\ unknown \in SUBSET (1 .. N)
          /\ \E free \in SUBSET (1 .. P), edges \in EdgeLists : Storable(free, edges) /\ heap = HeapOf(parent, unknown, free, edges)
          /\ cfg = [g |-> 2, save |-> TRUE, pack |-> TRUE] /\ roots = <<1>> /\ toks = <<>> /\ lib = <<>> /\ stored = FALSE
MCNext == ~stored /\ stored' = TRUE /\ toks' = Stored(heap, cfg, roots).out /\ UNCHANGED <<heap, cfg, roots, lib, parent, unknown>>
MCSpec == MCInit /\ [][MCNext]_mvars
Emit == Emitting => PrintT("SCN" \o ToJson([parent |-> parent, unknown |-> unknown, free |-> [j \in 1 .. P |-> heap[W(j)].f.free_point], edges |-> heap[2].f.edges, first |-> W(1)]))

\* An independent reader of the tree: object numbers and child counts
Nodes == SelectSeq(toks, LAMBDA t : t.k = "string" /\ t.key = "vobName")
Counts == SelectSeq(toks, LAMBDA t : t.k = "int" /\ t.key \in {"childs" \o ToString(n) : n \in 0 .. N})
RECURSIVE TreeAt(_, _, _)                     \* the parents found when reading n nodes from position i below p: <<next position, parents>>
TreeAt(i, n, p) == IF n = 0 THEN <<i, <<>>>>
  ELSE LET me == Nodes[i].v[1] - 64 - 2
           below == TreeAt(i + 1, WordNat(Counts[i + 1].v), me)
           rest == TreeAt(below[1], n - 1, p)
       IN <<rest[1], <<<<me, p>>>> \o below[2] \o rest[2]>>
TreeRight == stored => LET r == TreeAt(1, WordNat(Counts[1].v), 0) IN r[1] = N + 1 /\ {r[2][i] : i \in 1 .. Len(r[2])} = {<<i, parent[i]>> : i \in 1 .. N}
RECURSIVE Lost(_)
Lost(i) == i \in unknown \/ (parent[i] # 0 /\ Lost(parent[i]))
LossRight == stored =>
  LET k == Kept(heap, cfg, {"zCVobSpot"})
      left == UNION {{Preorder(k, k[1].f.world_vobs[i])[j] : j \in 1 .. Len(Preorder(k, k[1].f.world_vobs[i]))} : i \in 1 .. Len(k[1].f.world_vobs)}
  IN left = {V(i) : i \in {j \in 1 .. N : ~Lost(j)}}
\* Every point is stored once; all others are references
PointsOnce == stored => Cardinality({i \in 1 .. Len(toks) : toks[i].k = "begin" /\ toks[i].cls = "zCWaypoint"}) = P
============================================================================================================================
