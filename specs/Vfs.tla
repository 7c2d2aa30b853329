-------------------------------------------------------- MODULE Vfs --------------------------------------------------------
(* The virtual file system: a tree of named directories and files. Names are compared without regard to letter case and   *)
(* trailing white space, so a node is identified by its path of keys. Properties F01 (lookup), F02 (mount policy) and     *)
(* F03 (disk images).                                                                                                      *)
EXTENDS Bytes, TLC

CONSTANT TZ,        \* offset of the local time zone in seconds (disk images carry local DOS times)
         NOW        \* the timestamp of directories made by mkdir

VARIABLES fs,       \* paths (non-empty sequences of keys) -> node
          res       \* result of the last call

vars == <<fs, res>>

Key(name) == Lower(TrimRight(name))
NoNode == [k |-> "none"]
FileNode(nm, t, c) == [k |-> "f", nm |-> TrimRight(nm), t |-> t, c |-> c]
DirNode(nm, t) == [k |-> "d", nm |-> TrimRight(nm), t |-> t, c |-> <<>>]

Components(path) == SelectSeq(Split(path, 47), LAMBDA s : s # <<>>)
KeyPath(path) == LET cs == Components(path) IN [i \in 1 .. Len(cs) |-> Key(cs[i])]

IsDir(f, p) == p = <<>> \/ (p \in DOMAIN f /\ f[p].k = "d")
Exists(f, p) == p = <<>> \/ p \in DOMAIN f
Below(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p           \* q is p or lies below p
Prune(f, p) == [q \in {q \in DOMAIN f : ~Below(p, q)} |-> f[q]]
Put(f, p, n) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN n ELSE f[q]]
Children(f, p) == {q \in DOMAIN f : Len(q) = Len(p) + 1 /\ Below(p, q)}
EmptyFs == [p \in {} |-> NoNode]

-----------------------------------------------------------------------------------------------------------------------------
(* Mounting. `replaces` decides whether an existing node gives way to a new one in a conflict that involves a file.        *)
Replaces(policy, old, new) ==
  CASE policy = "none" -> FALSE
    [] policy = "all" -> TRUE
    [] policy = "newer" -> old > new
    [] policy = "older" -> old < new

\* Source nodes are records [k, nm, t, c, ch] with ch the sequence of children.
RECURSIVE Graft(_, _, _), Merge(_, _, _, _)
Graft(f, p, n) ==
  IF n.k = "f" THEN Put(f, p, FileNode(n.nm, n.t, n.c))
  ELSE FoldLeft(LAMBDA g, c : Graft(g, Append(p, Key(c.nm)), c), Put(f, p, DirNode(n.nm, n.t)), n.ch)
Merge(f, d, n, policy) ==
  LET p == Append(d, Key(n.nm)) IN
  IF p \notin DOMAIN f THEN Graft(f, p, n)
  ELSE IF f[p].k = "f" \/ n.k = "f"
       THEN IF Replaces(policy, f[p].t, n.t) THEN Graft(Prune(f, p), p, n) ELSE f
       ELSE FoldLeft(LAMBDA g, c : Merge(g, p, c, policy), f, n.ch)

-----------------------------------------------------------------------------------------------------------------------------
(* Disk images, byte by byte: 256 bytes comment, 16 bytes signature, six 32-bit words (entries, files, DOS time, size,     *)
(* catalog offset, volume flags), the catalog of 80-byte entries (64 bytes name, offset, size, type, attributes), data.    *)
SigPrefix == <<80, 83, 86, 68, 83, 67, 95, 86, 50, 46, 48, 48>>
SigG1 == SigPrefix \o <<13, 10, 13, 10>>
SigG2 == SigPrefix \o <<10, 13, 10, 13>>
SigTool == SigPrefix \o <<26, 26, 26, 26>>

DaysBefore == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysTo(y) == 365 * (y - 1970) + ((y - 1969) \div 4)      \* days from 1970 to the 1st of January of y, 1970 <= y <= 2099
DosTime(w) ==                                            \* seconds since 1970, local time, of a DOS time word
  LET y == 1980 + (w[1] \div 512) mo == (w[1] \div 32) % 16 d == w[1] % 32
      h == w[2] \div 2048 mi == (w[2] \div 32) % 64 s == 2 * (w[2] % 32)
  IN (DaysTo(y) + DaysBefore[mo] + (IF mo > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1) * 86400 + h * 3600 + mi * 60 + s

Header(b) == [sig |-> Slice(b, 256, 16), entries |-> WordAt(b, 272), files |-> WordAt(b, 276), time |-> WordAt(b, 280),
              catalog |-> WordAt(b, 288), flags |-> WordAt(b, 292)]
CatalogStart(b) == LET c == Header(b).catalog IN IF c = <<0, 0>> THEN 296 ELSE IF WordFits(c) THEN WordNat(c) ELSE Len(b)

\* Entry number i of the catalog, or "none" if it does not lie inside the image (i is a TLC natural, or -1: too large)
EntryAt(b, i) ==
  LET o == CatalogStart(b) + 80 * i IN
  IF i < 0 \/ i > 1000000 \/ o + 80 > Len(b) THEN [k |-> "none"]
  ELSE LET off == WordAt(b, o + 64) size == WordAt(b, o + 68) type == WordAt(b, o + 72)
           name == SubSeq(b, o + 1, o + 64)
           end == WordAdd(off, size)
       IN [k |-> IF type[1] >= 32768 THEN "d" ELSE "f",
           nm |-> TrimRight(name),
           first |-> IF WordFits(off) THEN WordNat(off) ELSE -1,
           inside |-> end[1] < 32768 /\ WordNat(end) <= Len(b),
           off |-> off, size |-> size,
           last |-> (type[1] \div 16384) % 2 = 1]

\* Mount the run of entries that starts with entry i into directory d. `path` holds the runs being mounted around this one:
\* a directory whose run is one of them contains itself. The result is [f, ok].
RECURSIVE MountRun(_, _, _, _, _, _, _)
MountRun(f, b, i, d, t, policy, path) ==
  LET e == EntryAt(b, i)
      p == Append(d, Key(e.nm))
      here == p \in DOMAIN f
      file == FileNode(e.nm, t, SubSeq(b, WordNat(e.off) + 1, WordNat(e.off) + WordNat(e.size)))
      wins == Replaces(policy, f[p].t, t)
      merged == IF here /\ f[p].k = "d" THEN f
                ELSE IF here THEN Put(Prune(f, p), p, DirNode(e.nm, t))
                ELSE Put(f, p, DirNode(e.nm, t))
      r == IF e.k = "none" THEN [f |-> f, ok |-> FALSE]
           ELSE IF e.k = "f"
                THEN [ok |-> TRUE,
                      f |-> IF ~e.inside THEN f
                            ELSE IF ~here THEN Put(f, p, file)
                            ELSE IF wins THEN Put(Prune(f, p), p, file) ELSE f]
           ELSE IF here /\ f[p].k = "f" /\ ~wins THEN [f |-> f, ok |-> TRUE]
           ELSE IF e.first \in path THEN [f |-> merged, ok |-> FALSE]
           ELSE MountRun(merged, b, e.first, p, t, policy, path \cup {e.first})
  IN IF ~r.ok \/ e.last THEN r ELSE MountRun(r.f, b, i + 1, d, t, policy, path)

ImageKind(b) ==
  LET h == Header(b) IN
  IF h.sig \notin {SigG1, SigG2, SigTool} \/ h.flags = <<0, 160>> THEN "foreign"
  ELSE IF h.entries = <<0, 0>> /\ CatalogStart(b) >= Len(b) THEN "empty"
  ELSE "catalog"
MountImage(f, b, policy) == MountRun(f, b, 0, <<>>, DosTime(Header(b).time) - TZ, policy, {0})

-----------------------------------------------------------------------------------------------------------------------------
(* The public calls. Each takes the operation record o and sets res.                                                       *)
Mkdir(o) ==
  LET cs == Components(o.path)
      at(n) == [i \in 1 .. n |-> Key(cs[i])]
      blocked == \E n \in 1 .. Len(cs) : at(n) \in DOMAIN fs /\ fs[at(n)].k = "f"
      missing == {n \in 1 .. Len(cs) : at(n) \notin DOMAIN fs}
      new == {at(n) : n \in missing}
      f2 == [p \in DOMAIN fs \cup new |-> IF p \in DOMAIN fs THEN fs[p] ELSE DirNode(cs[Len(p)], NOW)]
  IN IF blocked THEN res' = [r |-> "exists"] /\ UNCHANGED fs
     ELSE /\ fs' = f2
          /\ res' = [r |-> "ok", node |-> IF cs = <<>> THEN NoNode ELSE f2[at(Len(cs))]]

MountCall(o) ==
  LET d == KeyPath(o.parent) IN
  IF ~Exists(fs, d) THEN res' = [r |-> "notfound"] /\ UNCHANGED fs
  ELSE IF ~IsDir(fs, d) THEN res' = [r |-> "exists"] /\ UNCHANGED fs
  ELSE res' = [r |-> "ok"] /\ fs' = Merge(fs, d, o.tree, o.policy)

\* A host directory: its entries are mounted one by one; files without contents are left out.
RECURSIVE DropEmpty(_)
DropEmpty(n) ==
  IF n.k = "f" THEN n
  ELSE [n EXCEPT !.ch = LET kept == SelectSeq(n.ch, LAMBDA c : c.k = "d" \/ c.c # <<>>) IN [i \in 1 .. Len(kept) |-> DropEmpty(kept[i])]]
MountHost(o) ==
  LET d == KeyPath(o.parent) ch == DropEmpty(o.tree).ch IN
  IF ~Exists(fs, d) THEN res' = [r |-> "notfound"] /\ UNCHANGED fs
  ELSE IF ~IsDir(fs, d) THEN res' = [r |-> "exists"] /\ UNCHANGED fs
  ELSE res' = [r |-> "ok"] /\ fs' = FoldLeft(LAMBDA g, c : Merge(g, d, c, o.policy), fs, ch)

\* o.img are the bytes of the image. A catalog that turns out to be broken may have been mounted in part.
MountDisk(o) ==
  CASE ImageKind(o.img) = "foreign" -> res' = [r |-> "broken"] /\ UNCHANGED fs
    [] ImageKind(o.img) = "empty" -> res' = [r |-> "ok"] /\ UNCHANGED fs
    [] OTHER -> LET m == MountImage(fs, o.img, o.policy) IN
                IF m.ok THEN res' = [r |-> "ok"] /\ fs' = m.f
                ELSE res' = [r |-> "broken"] /\ fs' = m.f

RemoveCall(o) ==
  LET p == KeyPath(o.path) IN
  IF p \in DOMAIN fs THEN fs' = Prune(fs, p) /\ res' = [r |-> "ok", found |-> TRUE]
  ELSE UNCHANGED fs /\ res' = [r |-> "ok", found |-> FALSE]

Resolve(o) ==
  LET p == KeyPath(o.path) IN
  /\ UNCHANGED fs
  /\ res' = [r |-> "ok", node |-> IF p \in DOMAIN fs THEN fs[p] ELSE NoNode]

\* Any node of that name anywhere in the tree may be returned.
Named(f, name) == {p \in DOMAIN f : p[Len(p)] = Key(name)}
Find(o) ==
  /\ UNCHANGED fs
  /\ IF Named(fs, o.name) = {} THEN res' = [r |-> "ok", node |-> NoNode]
     ELSE \E p \in Named(fs, o.name) : res' = [r |-> "ok", node |-> fs[p]]

\* A saved image must, when mounted into an empty file system, give the same tree with the image's timestamp.
NoEmptyDirs(f) == \A p \in DOMAIN f : f[p].k = "d" => Children(f, p) # {}
Stamped(f, t) == [p \in DOMAIN f |-> [f[p] EXCEPT !.t = t]]
ImageOf(b, f, game, t) ==
  LET h == Header(b) IN
  /\ h.sig = (IF game = 1 THEN SigG1 ELSE SigG2)
  /\ h.flags = <<0, 80>>
  /\ h.entries = NatWord(Cardinality(DOMAIN f))
  /\ h.files = NatWord(Cardinality({p \in DOMAIN f : f[p].k = "f"}))
  /\ DosTime(h.time) - TZ = t - (t % 2)
  /\ IF f = EmptyFs THEN ImageKind(b) = "empty"
     ELSE /\ ImageKind(b) = "catalog"
          /\ LET m == MountImage(EmptyFs, b, "none") IN m.ok /\ m.f = Stamped(f, t - (t % 2))
Save(o) == UNCHANGED fs /\ NoEmptyDirs(fs) /\ \E img \in {o.img} : ImageOf(img, fs, o.game, o.time) /\ res' = [r |-> "ok"]

Init == fs = EmptyFs /\ res = [r |-> "none"]

Step(o) ==
  CASE o.op = "mkdir" -> Mkdir(o)
    [] o.op = "mount" -> MountCall(o)
    [] o.op = "host" -> MountHost(o)
    [] o.op = "disk" -> MountDisk(o)
    [] o.op = "remove" -> RemoveCall(o)
    [] o.op = "resolve" -> Resolve(o)
    [] o.op = "find" -> Find(o)
    [] o.op = "save" -> Save(o)
    [] o.op = "fresh" -> fs' = EmptyFs /\ res' = [r |-> "ok"]   \* continue with a new, empty file system

-----------------------------------------------------------------------------------------------------------------------------
(* What must hold of the tree itself, and of every step.                                                                   *)
TreeWellFormed ==
  \A p \in DOMAIN fs :
    /\ p # <<>>
    /\ IsDir(fs, SubSeq(p, 1, Len(p) - 1))             \* nothing lies below a file or nowhere
    /\ p[Len(p)] = Key(fs[p].nm)                       \* a node is found under its own name
FindAgrees == \A p \in DOMAIN fs : Named(fs, fs[p].nm) # {}

Lost == {p \in DOMAIN fs : p \notin DOMAIN fs'}
Changed == {p \in DOMAIN fs \cap DOMAIN fs' : fs'[p] # fs[p]}
MkdirOnlyAdds(o) == Lost = {} /\ Changed = {}
RemoveIsLocal(o) == Lost = {p \in DOMAIN fs : Below(KeyPath(o.path), p) /\ KeyPath(o.path) # <<>>} /\ Changed = {} /\ DOMAIN fs' \subseteq DOMAIN fs
MountHonours(o) ==
  /\ o.policy = "none" => Lost = {} /\ Changed = {}
  /\ o.policy # "none" => \A p \in Lost \cup Changed :                       \* a loss is explained by a replaced ancestor or self
        \E q \in Changed : Below(q, p) /\ (fs[q].k = "f" \/ fs'[q].k = "f") /\ Replaces(o.policy, fs[q].t, fs'[q].t)
  /\ \A p \in Changed : fs[p].k = "f" \/ fs'[p].k = "f" \/ \E q \in Changed : q # p /\ Below(q, p)
  /\ \A p \in DOMAIN fs' \ DOMAIN fs : Below(KeyPath(o.parent), p)
RefusedChangesNothing == res'.r # "ok" => fs' = fs
ReadsChangeNothing(o) == o.op \in {"resolve", "find", "save"} => fs' = fs
============================================================================================================================
