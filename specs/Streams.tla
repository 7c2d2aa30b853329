------------------------------------------------------ MODULE Streams ------------------------------------------------------
(* Byte streams: a sequence of bytes with a cursor. Properties S01 (reading), S02 (writing) and S03 (chunks).              *)
EXTENDS Bytes, TLC

VARIABLES data,     \* the bytes
          pos,      \* the cursor, 0-based
          cap,      \* capacity of a fixed-size destination, -1 if it grows
          res       \* result of the last call
vars == <<data, pos, cap, res>>

Size == Len(data)
Signed8(x) == IF x > 127 THEN x - 256 ELSE x
Signed16(x) == IF x > 32767 THEN x - 65536 ELSE x

\* Number of bytes of each fixed-size kind
Width(kind) == CASE kind \in {"char", "byte", "ubyte"} -> 1
                 [] kind \in {"short", "ushort"} -> 2
                 [] kind \in {"int", "uint", "float"} -> 4
                 [] kind = "vec2" -> 8
                 [] kind = "vec3" -> 12
                 [] kind = "mat3" -> 36
                 [] kind = "mat4" -> 64
Words(b, off, n) == [i \in 1 .. n |-> WordAt(b, off + 4 * (i - 1))]
\* Matrices are stored row by row and held column by column
Transposed(ws, n) == [k \in 1 .. n * n |-> ws[((k - 1) % n) * n + ((k - 1) \div n) + 1]]
Decode(kind, b, off) ==
  CASE kind \in {"char", "byte"} -> Signed8(ByteAt(b, off))
    [] kind = "ubyte" -> ByteAt(b, off)
    [] kind = "short" -> Signed16(U16At(b, off))
    [] kind = "ushort" -> U16At(b, off)
    [] kind \in {"int", "uint", "float"} -> WordAt(b, off)
    [] kind = "vec2" -> Words(b, off, 2)
    [] kind = "vec3" -> Words(b, off, 3)
    [] kind = "mat3" -> Transposed(Words(b, off, 9), 3)
    [] kind = "mat4" -> Transposed(Words(b, off, 16), 4)
Encode(kind, v) ==
  CASE kind \in {"char", "byte"} -> <<IF v < 0 THEN v + 256 ELSE v>>
    [] kind = "ubyte" -> <<v>>
    [] kind \in {"short", "ushort"} -> LET u == IF v < 0 THEN v + 65536 ELSE v IN <<u % 256, u \div 256>>
    [] kind \in {"int", "uint", "float"} -> WordBytes(v)
    [] kind \in {"vec2", "vec3"} -> FlattenSeq([i \in 1 .. Len(v) |-> WordBytes(v[i])])
    [] kind = "mat3" -> LET t == Transposed(v, 3) IN FlattenSeq([i \in 1 .. 9 |-> WordBytes(t[i])])
    [] kind = "mat4" -> LET t == Transposed(v, 4) IN FlattenSeq([i \in 1 .. 16 |-> WordBytes(t[i])])
    [] kind = "string" -> v
    [] kind = "string0" -> Append(v, 0)
    [] kind = "line" -> Append(v, 10)
    [] kind = "raw" -> v

Advance(n) == pos' = MinOf(Size, pos + n)

-----------------------------------------------------------------------------------------------------------------------------
(* Reading *)
Open(o) == data' = o.data /\ pos' = 0 /\ cap' = -1 /\ res' = [v |-> 0]
ReadFixed(o) == UNCHANGED <<data, cap>> /\ Advance(Width(o.kind)) /\ res' = [v |-> Decode(o.kind, data, pos)]
ReadString(o) == UNCHANGED <<data, cap>> /\ Advance(o.n) /\ res' = [v |-> Slice(data, pos, o.n)]
ReadRaw(o) == LET n == MinOf(o.n, Size - pos) IN
              UNCHANGED <<data, cap>> /\ Advance(o.n) /\ res' = [v |-> SubSeq(data, pos + 1, pos + n)]

\* A line ends at NUL, CR, LF or the end of the data; the terminator is consumed. Unless the terminator is NUL (or nothing is
\* left), the characters to be ignored behind it are skipped.
Stops(c) == c \in {0, 10, 13}
RECURSIVE EndOfLine(_), EndOfIgnored(_, _)
EndOfLine(p) == IF p >= Size \/ Stops(data[p + 1]) THEN p ELSE EndOfLine(p + 1)
EndOfIgnored(p, ign) == IF p < Size /\ data[p + 1] \in ign THEN EndOfIgnored(p + 1, ign) ELSE p
ReadLine(o) ==
  LET e == EndOfLine(pos)
      after == MinOf(Size, e + 1)
      ign == {o.ignore[i] : i \in 1 .. Len(o.ignore)} \ {0}
      p == IF e >= Size \/ data[e + 1] = 0 THEN after ELSE EndOfIgnored(after, ign)
      lastNul == p + 1 = Size /\ p > 0 /\ e < Size /\ data[e + 1] # 0 /\ data[p + 1] = 0 /\ o.ignore # <<>>
  IN /\ UNCHANGED <<data, cap>>
     /\ res' = [v |-> SubSeq(data, pos + 1, e)]
     /\ pos' = p \/ (lastNul /\ pos' = Size)    \* a NUL that ends the data may be taken with the line before it

Target(o) == o.off + (CASE o.whence = "beg" -> 0 [] o.whence = "cur" -> pos [] o.whence = "end" -> Size)
SeekRead(o) ==
  LET t == Target(o) IN
  /\ UNCHANGED <<data, cap>> /\ res' = [v |-> 0]
  /\ pos' = IF t < 0 \/ t > Size THEN pos ELSE t

-----------------------------------------------------------------------------------------------------------------------------
(* Writing *)
OpenWrite(o) == data' = (IF o.cap >= 0 THEN [i \in 1 .. o.cap |-> 238] ELSE o.data) /\ pos' = 0 /\ cap' = o.cap /\ res' = [v |-> 0]
Put(d, p, bs) == [i \in 1 .. MaxOf(Len(d), p + Len(bs)) |->
                   IF i > p /\ i <= p + Len(bs) THEN bs[i - p] ELSE IF i <= Len(d) THEN d[i] ELSE 0]
WriteBytes(bs) ==
  LET n == IF cap < 0 THEN Len(bs) ELSE MinOf(Len(bs), cap - pos) IN
  /\ IF n = 0 THEN data' = data \/ (cap < 0 /\ data' = Put(data, pos, <<>>))   \* nothing to write: a gap may or may not appear
     ELSE data' = Put(data, pos, SubSeq(bs, 1, n))
  /\ pos' = pos + n
  /\ UNCHANGED cap /\ res' = [v |-> 0]
WriteValue(o) == WriteBytes(Encode(o.kind, o.v))
SeekWrite(o) ==
  LET t == Target(o) IN
  /\ UNCHANGED <<data, cap>> /\ res' = [v |-> 0]
  /\ IF cap >= 0 THEN pos' = IF t < 0 \/ t > cap THEN pos ELSE t
     ELSE t >= 0 /\ pos' = t                        \* a growing destination may be positioned behind its end

-----------------------------------------------------------------------------------------------------------------------------
(* Chunks: 16-bit type, 32-bit length, payload. o.take[i] bytes are consumed by the handler of the i-th chunk it sees, which  *)
(* declares chunk number o.stop to be the last.                                                                             *)
ChunkAt(p) == [type |-> U16At(data, p), len |-> WordNat(WordAt(data, p + 2))]
RECURSIVE Walk(_, _, _)
Walk(p, i, o) ==
  LET c == ChunkAt(p)
      next == p + 6 + c.len
      n == MinOf(o.take[i], Size - p - 6)
      here == [type |-> c.type, at |-> p + 6, got |-> SubSeq(data, p + 7, p + 6 + n)]
  IN IF i = o.stop \/ next >= Size THEN [seen |-> <<here>>, end |-> next]
     ELSE LET r == Walk(next, i + 1, o) IN [r EXCEPT !.seen = <<here>> \o @]
ReadChunks(o) == LET r == Walk(pos, 1, o) IN UNCHANGED <<data, cap>> /\ pos' = r.end /\ res' = [v |-> r.seen]
\* Writing a chunk whose payload is produced by one write per element of o.parts, followed by o.inner chunks inside it
RECURSIVE ChunkBytes(_)
ChunkBytes(c) ==
  LET payload == FlattenSeq(c.parts) \o FlattenSeq([i \in 1 .. Len(c.inner) |-> ChunkBytes(c.inner[i])])
  IN <<c.type % 256, c.type \div 256>> \o WordBytes(NatWord(Len(payload))) \o payload
WriteChunk(o) == WriteBytes(ChunkBytes(o.chunk))

Init == data = <<>> /\ pos = 0 /\ cap = -1 /\ res = [v |-> 0]
Step(o) ==
  CASE o.op = "open" -> Open(o)
    [] o.op = "read" -> ReadFixed(o)
    [] o.op = "string" -> ReadString(o)
    [] o.op = "raw" -> ReadRaw(o)
    [] o.op = "line" -> ReadLine(o)
    [] o.op = "seek" -> SeekRead(o)
    [] o.op = "chunks" -> ReadChunks(o)
    [] o.op = "create" -> OpenWrite(o)
    [] o.op = "write" -> WriteValue(o)
    [] o.op = "wseek" -> SeekWrite(o)
    [] o.op = "wchunk" -> WriteChunk(o)

CursorInside == pos >= 0 /\ (pos <= Size \/ cap < 0) /\ (cap >= 0 => Size = cap /\ pos <= cap)
ReadingChangesNoByte(o) == o.op \in {"read", "string", "raw", "line", "seek", "chunks"} => data' = data /\ pos' <= Len(data)
WritesAreLocal(o) ==
  o.op = "write" =>
    /\ \A i \in 1 .. Len(data) : (i <= pos \/ i > pos') => data'[i] = data[i]       \* nothing else changes
    /\ \A i \in Len(data) + 1 .. Len(data') : (i <= pos) => data'[i] = 0              \* a gap reads as zero
    /\ (cap < 0 => Slice(data', pos, pos' - pos) = Encode(o.kind, o.v))
WrittenValuesReadBack(o) ==
  (o.op = "write" /\ o.kind \in {"byte", "ubyte", "short", "ushort", "int", "uint"} /\ cap < 0) => Decode(o.kind, data', pos) = o.v
============================================================================================================================
