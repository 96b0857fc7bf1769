-------------------------------- MODULE JBitio --------------------------------
(***************************************************************************)
(* Judges recorded calls of a bit reader and a bit writer.                 *)
(***************************************************************************)
EXTENDS Bitio, Json, IOUtils, TLC

Recs == ndJsonDeserialize(IOEnv.TRACE)

\* readers that hand over fewer bytes than they are asked for
Prefix(a, b) == Len(a) > 0 /\ Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* [ok, s, stop]
Fail == [ok |-> FALSE, s |-> 0, stop |-> TRUE]
Go(s) == [ok |-> TRUE, s |-> s, stop |-> FALSE]
Stop == [ok |-> TRUE, s |-> 0, stop |-> TRUE]
ReadStep(r, s, e) ==
  LET x == CASE e.e = "rbits" -> RBits(r.data, s, e.n)
             [] e.e = "rbit" -> RBits(r.data, s, 1)
             [] e.e = "rbytes" -> RBytes(r.data, s, e.n)
             [] e.e = "seek" -> RSeek(r.data, s, e.off, e.whence)
  IN  CASE x.st = "err" -> IF e.st = "err" THEN Stop ELSE Fail
        [] x.st \in {"align", "refused"} -> IF e.st = "err" THEN Go(s) ELSE Fail
        [] x.st = "ok" ->
             IF e.st # "ok" THEN Fail
             ELSE IF e.e = "rbytes"
                  THEN IF Prefix(e.b, x.v) /\ (r.reader = "plain" => e.b = x.v) THEN Go([s EXCEPT !.pos = @ + Len(e.b)]) ELSE Fail
             ELSE IF e.e = "seek" THEN (IF e.at = x.v THEN Go(x.s) ELSE Fail)
             ELSE IF e.b = x.v THEN Go(x.s) ELSE Fail
WriteStep(r, s, e) ==
  LET x == CASE e.e = "wbits" -> WBits(s, e.b, e.n)
             [] e.e = "wbit" -> WBits(s, e.b, 1)
             [] e.e = "wbytes" -> WBytes(s, e.b)
  IN  CASE x.st = "align" -> IF e.st = "err" THEN Go(s) ELSE Fail
        [] x.st = "ok" -> IF e.st = "ok" THEN Go(x.s) ELSE Fail
Judge(r) ==
  LET Step(a, e) == IF a.stop THEN (IF a.ok THEN Fail ELSE a)       \* nothing follows the end
                    ELSE IF r.side = "r" THEN ReadStep(r, a.s, e) ELSE WriteStep(r, a.s, e)
      z == FoldLeft(Step, Go(IF r.side = "r" THEN RInit ELSE BWInit), r.log)
  IN  /\ r.st = "ok" /\ z.ok
      /\ r.side = "w" => z.s.out = r.out

VARIABLES c, i
Stride == 8
Init == c \in 0..(Stride - 1) /\ i = 0
Next == /\ i' = (IF i = 0 THEN c + 1 ELSE i + Stride)
        /\ i' <= Len(Recs)
        /\ c' = c
Ok == i = 0 \/ Judge(Recs[i]) \/ PrintT(<<"REJECT", i>>)
=============================================================================
