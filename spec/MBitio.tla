-------------------------------- MODULE MBitio --------------------------------
(***************************************************************************)
(* A writer and a reader of bits on the same bytes, in every short order   *)
(* of their calls.  What is read is what was written, wherever the calls   *)
(* cut the bits; nothing is lost or invented by refused calls.             *)
(* wrote, read: all bits that went through the two so far (ghosts).        *)
(***************************************************************************)
EXTENDS Bitio, IOUtils, TLC

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
MaxOps == Env("M_OPS", 5)
Datas == << <<165, 60>>, <<1>>, <<254, 219, 151>> >>
Widths == {1, 3, 8, 13}

VARIABLES w, r, ops, wrote, read
vars == <<w, r, ops, wrote, read>>
Init == w = BWInit /\ r = RInit /\ ops = 0 /\ wrote = <<>> /\ read = <<>>

PutBits(d, n) ==
  LET x == WBits(w, Datas[d], n) IN
  /\ x.st = "ok" /\ w' = x.s /\ wrote' = wrote \o BitsOf(Datas[d], 8 * Len(Datas[d]) - n, n)
  /\ ops' = ops + 1 /\ UNCHANGED <<r, read>>
PutBytes(d) ==
  LET x == WBytes(w, Datas[d]) IN
  /\ w' = x.s /\ wrote' = (IF x.st = "ok" THEN wrote \o BitsOf(Datas[d], 0, 8 * Len(Datas[d])) ELSE wrote)
  /\ ops' = ops + 1 /\ UNCHANGED <<r, read>>
GetBits(n) ==
  LET x == RBits(w.out, r, n) IN
  /\ x.st = "ok" /\ r' = x.s /\ read' = read \o BitsOf(x.v, 8 * Len(x.v) - n, n)
  /\ ops' = ops + 1 /\ UNCHANGED <<w, wrote>>
GetBytes(n) ==
  LET x == RBytes(w.out, r, n) IN
  /\ x.st # "err" /\ r' = x.s /\ read' = read \o BitsOf(x.v, 0, 8 * Len(x.v))
  /\ ops' = ops + 1 /\ UNCHANGED <<w, wrote>>
\* back to the start; or nowhere, which is refused inside a byte
Rewind == /\ r # RInit /\ LET x == RSeek(w.out, r, 0, 0) IN r' = x.s /\ x.st = "ok"
          /\ read' = <<>> /\ ops' = ops + 1 /\ UNCHANGED <<w, wrote>>
Stay == LET x == RSeek(w.out, r, 0, 1) IN
        /\ r' = x.s /\ (x.st = "ok") = (r.left = 0)
        /\ ops' = ops + 1 /\ UNCHANGED <<w, wrote, read>>
Next == /\ ops < MaxOps
        /\ \/ \E d \in DOMAIN Datas, n \in Widths : PutBits(d, n)
           \/ \E d \in DOMAIN Datas : PutBytes(d)
           \/ \E n \in Widths : GetBits(n)
           \/ \E n \in {1, 2} : GetBytes(n)
           \/ Rewind \/ Stay
Spec == Init /\ [][Next]_vars

Conserved == wrote = BitsOf(w.out, 0, 8 * Len(w.out)) \o w.part /\ Len(w.part) < 8
Faithful == IsPrefix(read, wrote) /\ Len(read) = BitPos(r)
InByte == r.left \in 0..7 /\ r.pos <= Len(w.out)
Aligned == RAt(BitPos(r)) = r
\* reading at once or in two goes is the same
Splits == \A n \in Widths, m \in Widths :
  LET a == RBits(w.out, r, n + m)  b == RBits(w.out, r, n) IN
  a.st = "ok" => LET c == RBits(w.out, b.s, m) IN
                 /\ b.st = "ok" /\ c.st = "ok" /\ c.s = a.s
                 /\ BitsOf(a.v, 8 * Len(a.v) - n - m, n + m) =
                    BitsOf(b.v, 8 * Len(b.v) - n, n) \o BitsOf(c.v, 8 * Len(c.v) - m, m)
=============================================================================
