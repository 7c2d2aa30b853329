------------------------------------------------------- MODULE Word32 ------------------------------------------------------
(* Two's complement arithmetic on 32-bit integers that never leaves the range of TLC's own integers.                       *)
EXTENDS Integers, Bitwise
MinInt == -2147483647 - 1
Hi(a) == a \div 65536                            \* -32768 .. 32767
Lo(a) == a % 65536                               \* 0 .. 65535
Join(h, lo) == LET u == h % 65536 IN (IF u >= 32768 THEN u - 65536 ELSE u) * 65536 + lo
AddW(a, b) == LET lo == Lo(a) + Lo(b) IN Join(Hi(a) + Hi(b) + lo \div 65536, lo % 65536)
NotW(a) == Join(65535 - (Hi(a) % 65536), 65535 - Lo(a))
NegW(a) == AddW(NotW(a), 1)
SubW(a, b) == AddW(a, NegW(b))
MulW(a, b) ==
  LET p1 == Lo(a) * (Lo(b) % 256)
      p2 == Lo(a) * (Lo(b) \div 256)
      low == Join(p1 \div 65536, p1 % 65536)
      mid == Join(p2 \div 256, (p2 % 256) * 256)
      cross == ((Hi(a) * Lo(b)) % 65536) + ((Hi(b) * Lo(a)) % 65536)
  IN AddW(AddW(low, mid), Join(cross, 0))
\* division truncates towards zero; MinInt / -1 wraps around
DivW(a, b) ==
  IF b = -1 THEN NegW(a)
  ELSE IF b = MinInt THEN (IF a = MinInt THEN 1 ELSE 0)
  ELSE LET q == a \div b IN IF (a < 0) # (b < 0) /\ (a % (IF b < 0 THEN -b ELSE b)) # 0 THEN q + 1 ELSE q
ModW(a, b) == SubW(a, MulW(DivW(a, b), b))
AndW(a, b) == Join((Hi(a) % 65536) & (Hi(b) % 65536), Lo(a) & Lo(b))
OrW(a, b) == Join((Hi(a) % 65536) | (Hi(b) % 65536), Lo(a) | Lo(b))
RECURSIVE ShlW(_, _)
ShlW(a, n) == IF n = 0 THEN a ELSE ShlW(AddW(a, a), n - 1)
RECURSIVE SarW(_, _)
SarW(a, n) == IF n = 0 THEN a ELSE SarW(a \div 2, n - 1)
BoolInt(b) == IF b THEN 1 ELSE 0
============================================================================================================================
