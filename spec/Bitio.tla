-------------------------------- MODULE Bitio --------------------------------
(***************************************************************************)
(* Reading and writing numbers of bits (internal/bitio).                   *)
(*                                                                         *)
(*   reader  pos  bytes taken from the source, left  bits of the last of   *)
(*           them that are not read yet; the position in bits is           *)
(*           8 * pos - left                                                *)
(*   writer  out  whole bytes written, part  bits of the next byte         *)
(*                                                                         *)
(* Bytes can only be read or written, and the position only asked for or   *)
(* moved relatively, on a byte boundary; such a call fails and changes     *)
(* nothing.  An absolute seek drops what is left of the byte.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
BitAt(data, k) == (data[(k \div 8) + 1] \div Pow2[8 - (k % 8)]) % 2     \* k from 0, most significant first
BitsOf(data, from, n) == [k \in 1..n |-> BitAt(data, from + k - 1)]
ByteOf(bits) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, bits)              \* at most eight bits
\* a number of bits as bytes: right-aligned, filled with zero bits in front
Packed(bits) ==
  LET n == (Len(bits) + 7) \div 8
      all == [k \in 1..(8 * n - Len(bits)) |-> 0] \o bits
  IN  [k \in 1..n |-> ByteOf(SubSeq(all, 8 * k - 7, 8 * k))]

RInit == [pos |-> 0, left |-> 0]
Ans(st, s, v) == [st |-> st, s |-> s, v |-> v]

BitPos(s) == 8 * s.pos - s.left
RAt(bitpos) == [pos |-> (bitpos + 7) \div 8, left |-> ((8 - (bitpos % 8)) % 8)]

RBits(data, s, n) ==
  IF n > 0 /\ BitPos(s) + n > 8 * Len(data) THEN Ans("err", s, <<>>)
  ELSE Ans("ok", RAt(BitPos(s) + n), Packed(BitsOf(data, BitPos(s), n)))
\* all of n bytes; fewer only before the end of the data
RBytes(data, s, n) ==
  IF s.left # 0 THEN Ans("align", s, <<>>)
  ELSE IF s.pos >= Len(data) THEN Ans("err", s, <<>>)
  ELSE LET m == IF s.pos + n > Len(data) THEN Len(data) - s.pos ELSE n
       IN  Ans("ok", [s EXCEPT !.pos = @ + m], SubSeq(data, s.pos + 1, s.pos + m))
RSeek(data, s, off, whence) ==
  IF whence = 1 /\ s.left # 0 THEN Ans("align", s, 0)
  ELSE LET p == off + CASE whence = 0 -> 0 [] whence = 1 -> s.pos [] whence = 2 -> Len(data)
       IN  IF p < 0 THEN Ans("refused", s, 0) ELSE Ans("ok", [pos |-> p, left |-> 0], p)

BWInit == [out |-> <<>>, part |-> <<>>]
RECURSIVE Whole(_)
Whole(s) == IF Len(s.part) < 8 THEN s
            ELSE Whole([out |-> Append(s.out, ByteOf(SubSeq(s.part, 1, 8))), part |-> SubSeq(s.part, 9, Len(s.part))])
\* the last n bits of the data
WBits(s, data, n) ==
  IF n > 8 * Len(data) THEN Ans("err", s, <<>>)
  ELSE Ans("ok", Whole([s EXCEPT !.part = @ \o BitsOf(data, 8 * Len(data) - n, n)]), <<>>)
WBytes(s, data) == IF s.part # <<>> THEN Ans("align", s, <<>>) ELSE Ans("ok", [s EXCEPT !.out = @ \o data], <<>>)
=============================================================================
