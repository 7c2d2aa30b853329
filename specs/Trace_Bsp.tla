----------------------------------------------------- MODULE Trace_Bsp -----------------------------------------------------
EXTENDS Bsp, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(x, y) == IF x = y THEN TRUE
            ELSE PrintT("EXPECTED " \o (IF DOMAIN x # DOMAIN y THEN ToString(DOMAIN x) ELSE ToString([k \in {k \in DOMAIN x : x[k] # y[k]} |-> x[k]]))) /\ FALSE
With(m, tri) == [k \in DOMAIN m \cup {"tri"} |-> IF k = "tri" THEN tri ELSE m[k]]
\* Images as observed: they have one level of format R8G8B8A8
Img(i) == [w |-> i.w, h |-> i.h, fmt |-> 1, mips |-> 1, data |-> i.data]
Obs(m) == [m EXCEPT !.imgs = [k \in 1 .. Len(@) |-> Img(@[k])]]
SetOf(s) == {s[i] : i \in 1 .. Len(s)}
Good(e) == e.res = "ok"
Consume(e) ==
  CASE e.op = "begin" -> tree' = NoTree /\ mesh' = NoMesh /\ tfile' = <<>> /\ mfile' = <<>> /\ wfile' = <<>>
    [] e.op = "tree_set" -> TreeSet(e.t) /\ Good(e) /\ Is(tree', e.out)
    [] e.op = "tree_save" -> TreeSave(e.v) /\ Good(e)
    [] e.op = "tree_file" -> TreeFile(e.t, e.parts, e.v) /\ Good(e) /\ Assert(e.bytes = TreeBytes(Made(e.t), e.parts, e.v), "bytes of tree")
    [] e.op = "tree_load" -> TreeLoad /\ Good(e) /\ Is(tree', e.out) /\ e.left = Len(e.after)
    [] e.op = "mesh_set" -> MeshSet(e.m) /\ Good(e)
    [] e.op = "mesh_save" -> MeshSave(e.v) /\ Good(e)
    [] e.op = "mesh_file" -> MeshFile(e.m, e.parts, e.v, e.wide) /\ Good(e) /\ Assert(e.bytes = MeshBytes(e.m, e.parts, e.v, e.wide), "bytes of mesh")
    [] e.op = "mesh_load" -> /\ MeshLoad /\ Good(e) /\ e.left = Len(e.after)
                             /\ Is(With(Obs(mesh'), IF e.listed = <<>> THEN NoTri ELSE Triangles(mesh', SetOf(e.listed[1]))), e.out)
    [] e.op = "world_save" -> WorldSave(e.v) /\ Good(e)
    [] e.op = "world_file" -> WorldFile /\ Good(e)
    [] e.op = "world_load" -> /\ UNCHANGED bvars /\ Good(e) /\ e.got = wfile[1].g
                              /\ Is(wfile[1].t, e.tree) /\ Is(With(Obs(wfile[1].m), Triangles(wfile[1].m, SetOf(wfile[1].t.leaf_polys))), e.out)
    [] e.op = "obb" -> UNCHANGED bvars /\ Good(e) /\ e.min = BoxMin(e.c, e.a, e.h) /\ e.max = BoxMax(e.c, e.a, e.h)
TraceInit == BInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Consume(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<bvars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
============================================================================================================================
