------------------------------------------------------- MODULE Bytes -------------------------------------------------------
(* Bytes, characters and machine words. A string is a sequence of byte values; a 32-bit word is a pair <<high, low>> of   *)
(* 16-bit halves, because TLC's integers are 32 bits wide.                                                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Chr == [space |-> 32, tab |-> 9, nl |-> 10, vt |-> 11, ff |-> 12, cr |-> 13, slash |-> 47, quote |-> 34]

IsSpace(c) == c \in {32, 9, 10, 11, 12, 13}
LowerC(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
UpperC(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Lower(s) == [i \in 1 .. Len(s) |-> LowerC(s[i])]
Upper(s) == [i \in 1 .. Len(s) |-> UpperC(s[i])]

RECURSIVE TrimRight(_)
TrimRight(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* Split at every occurrence of c; consecutive separators give empty parts.
Split(s, c) ==
  LET cuts == SetToSortSeq({i \in 1 .. Len(s) : s[i] = c}, <)
  IN [k \in 1 .. Len(cuts) + 1 |-> SubSeq(s, IF k = 1 THEN 1 ELSE cuts[k - 1] + 1, IF k > Len(cuts) THEN Len(s) ELSE cuts[k] - 1)]

\* The bytes of b at 0-based offset off, n of them; bytes beyond the end read as zero.
ByteAt(b, off) == IF off + 1 <= Len(b) THEN b[off + 1] ELSE 0
Slice(b, off, n) == [i \in 1 .. n |-> ByteAt(b, off + i - 1)]

\* Little-endian
U16At(b, off) == ByteAt(b, off) + 256 * ByteAt(b, off + 1)
WordAt(b, off) == <<U16At(b, off + 2), U16At(b, off)>>
WordBytes(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>

WordFits(w) == w[1] < 32768                      \* representable as a TLC natural
WordNat(w) == w[1] * 65536 + w[2]
NatWord(n) == <<n \div 65536, n % 65536>>
WordAdd(a, b) == LET lo == a[2] + b[2] hi == a[1] + b[1] + (lo \div 65536) IN <<hi, lo % 65536>>   \* may exceed 32 bits
WordLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
============================================================================================================================
