-------------------------------- MODULE Writer --------------------------------
(***************************************************************************)
(* The box writer: an output that can seek, and a stack of open boxes.     *)
(*                                                                         *)
(*   out.segs  the bytes written, as runs in order, no two touching        *)
(*   out.len   length of the output, out.pos  the position in it           *)
(*   stk       the open boxes, as StartBox returned them                   *)
(***************************************************************************)
EXTENDS Files

RECURSIVE SegsBefore(_, _)
SegsBefore(segs, a) ==      \* what lies before a
  IF segs = <<>> THEN <<>>
  ELSE LET s == segs[1] IN
       IF Le(a, s.o) THEN <<>>
       ELSE IF Lt(a, AddN(s.o, Len(s.b))) THEN <<[o |-> s.o, b |-> SubSeq(s.b, 1, N(Sub(a, s.o)))]>>
       ELSE <<s>> \o SegsBefore(Tail(segs), a)
RECURSIVE SegsFrom(_, _)
SegsFrom(segs, e) ==        \* what lies at e and behind
  IF segs = <<>> THEN <<>>
  ELSE LET s == segs[1] IN
       IF Le(AddN(s.o, Len(s.b)), e) THEN SegsFrom(Tail(segs), e)
       ELSE IF Le(e, s.o) THEN segs
       ELSE <<[o |-> e, b |-> SubSeq(s.b, N(Sub(e, s.o)) + 1, Len(s.b))]>> \o Tail(segs)
Glue(l, r) ==
  IF l # <<>> /\ r # <<>> /\ AddN(l[Len(l)].o, Len(l[Len(l)].b)) = r[1].o
  THEN SubSeq(l, 1, Len(l) - 1) \o <<[o |-> l[Len(l)].o, b |-> l[Len(l)].b \o r[1].b]>> \o Tail(r)
  ELSE l \o r
PutAt(segs, o, b) ==
  IF b = <<>> THEN segs
  ELSE Glue(Glue(SegsBefore(segs, o), <<[o |-> o, b |-> b]>>), SegsFrom(segs, AddN(o, Len(b))))

EmptyOut == [segs |-> <<>>, len |-> Z8, pos |-> Z8]
OutWrite(o, b) ==
  LET p == AddN(o.pos, Len(b))
  IN  [segs |-> PutAt(o.segs, o.pos, b), pos |-> p, len |-> IF Lt(o.len, p) /\ b # <<>> THEN p ELSE o.len]

WInit == [out |-> EmptyOut, stk |-> <<>>]
St(st, w, v) == [st |-> st, w |-> w, v |-> v]

WWrite(w, b) == St("ok", [w EXCEPT !.out = OutWrite(@, b)], NoBox)

\* whence 0 start, 1 current, 2 end; off a signed W64
WSeek(w, off, whence) ==
  LET base == CASE whence = 0 -> Z8 [] whence = 1 -> w.out.pos [] whence = 2 -> w.out.len
      p == Add(base, off)
  IN  IF IsNeg(p) THEN St("err", w, NoBox) ELSE St("ok", [w EXCEPT !.out.pos = p], NoBox)

WStart(w, bi) ==
  LET b == Written(bi, w.out.pos)
  IN  St("ok", [w EXCEPT !.out = OutWrite(@, HdrBytes(bi)), !.stk = Append(@, b)], b)

WEnd(w) ==
  LET bi == w.stk[Len(w.stk)]
      fin == [bi EXCEPT !.size = Sub(w.out.pos, bi.off)]
      h == HdrBytes(fin)
  IN  IF Len(h) # bi.hdr THEN St("err", w, NoBox)      \* the space StartBox left does not hold it
      ELSE St("ok", [out |-> [w.out EXCEPT !.segs = PutAt(@, bi.off, h)], stk |-> SubSeq(w.stk, 1, Len(w.stk) - 1)], fin)

\* all the bytes of the box, or an error
WCopy(w, F, bi) ==
  LET n == N(bi.size)  b == FBytes(F, bi.off, n) IN
  IF IsNeg(bi.size) \/ IsNeg(bi.off) \/ Len(b) < n THEN St("err", w, NoBox) ELSE WWrite(w, b)
=============================================================================
