-------------------------------- MODULE W64 --------------------------------
(***************************************************************************)
(* 64-bit machine integers as big-endian tuples of eight bytes.  TLC's own *)
(* integers have 31 bits; offsets, sizes and times in MP4 files have 64.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Z8 == <<0,0,0,0,0,0,0,0>>
Big == 1073741823          \* "larger than anything modelled"

\* natural number < 2^31 to W64
W(n) == <<0,0,0,0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

\* W64 to a natural, or Big when it does not fit 30 bits
N(v) == IF v[1] = 0 /\ v[2] = 0 /\ v[3] = 0 /\ v[4] = 0 /\ v[5] < 64
        THEN LET x == ((v[5] * 256 + v[6]) * 256 + v[7]) * 256 + v[8]
             IN  IF x > Big THEN Big ELSE x
        ELSE Big

IsBig(v) == N(v) = Big

RECURSIVE AddC(_, _, _, _)
\* bytes k..1 of a + b with carry c, as a tuple of length k
AddC(a, b, k, c) ==
  IF k = 0 THEN <<>>
  ELSE LET s == a[k] + b[k] + c IN Append(AddC(a, b, k - 1, s \div 256), s % 256)

Add(a, b) == AddC(a, b, 8, 0)
Not(a) == <<255-a[1],255-a[2],255-a[3],255-a[4],255-a[5],255-a[6],255-a[7],255-a[8]>>
Sub(a, b) == AddC(a, Not(b), 8, 1)
Neg(a) == Sub(Z8, a)
AddN(a, n) == Add(a, W(n))

\* unsigned comparison
RECURSIVE LtK(_, _, _)
LtK(a, b, k) == IF k > 8 THEN FALSE
                ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LtK(a, b, k + 1)
Lt(a, b) == LtK(a, b, 1)
Le(a, b) == ~Lt(b, a)

IsNeg(a) == a[1] >= 128
\* signed comparison: flip the sign bit
Flip(a) == <<(a[1] + 128) % 256, a[2], a[3], a[4], a[5], a[6], a[7], a[8]>>
SLt(a, b) == Lt(Flip(a), Flip(b))

Low32(a) == <<0,0,0,0,a[5],a[6],a[7],a[8]>>
High32(a) == <<0,0,0,0,a[1],a[2],a[3],a[4]>>
SExt32(a) == IF a[5] >= 128 THEN <<255,255,255,255,a[5],a[6],a[7],a[8]>> ELSE Low32(a)

\* a * n for a byte n, plus carry, modulo 2^64
RECURSIVE MulB(_, _, _, _)
MulB(a, n, k, c) ==
  IF k = 0 THEN <<>>
  ELSE LET s == a[k] * n + c IN Append(MulB(a, n, k - 1, s \div 256), s % 256)

Shl8(a) == <<a[2],a[3],a[4],a[5],a[6],a[7],a[8],0>>

RECURSIVE MulAcc(_, _, _, _)
MulAcc(a, b, k, acc) ==
  IF k > 8 THEN acc
  ELSE MulAcc(a, b, k + 1, IF b[k] = 0 THEN Shl8(acc) ELSE Add(Shl8(acc), MulB(a, b[k], 8, 0)))
Mul(a, b) == MulAcc(a, b, 1, Z8)

\* bit k (0 = least significant)
P2 == <<1,2,4,8,16,32,64,128>>
BitOf(v, k) == (v[8 - (k \div 8)] \div P2[(k % 8) + 1]) % 2

\* truncate to the low n bits / sign-extend from n bits  (1 <= n <= 64)
Trunc(v, n) ==
  LET B(k) == LET lo == 8 * (8 - k) IN
              IF lo >= n THEN 0 ELSE IF n - lo >= 8 THEN v[k] ELSE v[k] % P2[(n - lo) + 1]
  IN  IF n >= 64 THEN v ELSE <<B(1),B(2),B(3),B(4),B(5),B(6),B(7),B(8)>>

SExt(v, n) ==
  IF n >= 64 THEN v
  ELSE IF BitOf(v, n - 1) = 0 THEN Trunc(v, n)
  ELSE LET t == Trunc(v, n)
           B(k) == LET lo == 8 * (8 - k) IN
                   IF lo >= n THEN 255
                   ELSE IF n - lo >= 8 THEN t[k] ELSE t[k] + (256 - P2[(n - lo) + 1])
       IN  <<B(1),B(2),B(3),B(4),B(5),B(6),B(7),B(8)>>

\* n bytes (n <= 8) as W64 and back
FromBytes(b) == [i \in 1..(8 - Len(b)) |-> 0] \o b
ToBytes(v, n) == SubSeq(v, 9 - n, 8)
=============================================================================
