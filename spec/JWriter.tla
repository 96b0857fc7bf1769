------------------------------- MODULE JWriter -------------------------------
(***************************************************************************)
(* Judges recorded uses of the writer, one transition per operation.       *)
(***************************************************************************)
EXTENDS Writer, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

Do(w, e) ==
  CASE e.e = "write" -> WWrite(w, e.b)
    [] e.e = "marshal" -> LET x == Encode(e.layout, e.v, e.ctx) IN IF x.st = "ok" THEN WWrite(w, x.b) ELSE St("err", w, NoBox)
    [] e.e = "seek" -> WSeek(w, e.off, e.whence)
    [] e.e = "start" -> WStart(w, e.bi)
    [] e.e = "end" -> WEnd(w)
    [] e.e = "copy" -> WCopy(w, e.f, e.bi)

Idle == [st |-> "idle", k |-> 0, w |-> WInit]
Run(k, w) == [st |-> "run", k |-> k, w |-> w]
Rej(m) == [m EXCEPT !.st = "rej"]

Step(r, m) ==
  IF r.st # "ok" \/ m.k > Len(r.log) THEN Rej(m)
  ELSE LET e == r.log[m.k] IN
       IF e.e = "done"
       THEN IF m.k = Len(r.log) /\ e.segs = m.w.out.segs /\ e.len = m.w.out.len THEN Idle ELSE Rej(m)
       ELSE LET x == Do(m.w, e) IN
            IF x.st # "ok" THEN (IF e.st # "ok" /\ m.k = Len(r.log) THEN Idle ELSE Rej(m))
            ELSE IF /\ e.st = "ok" /\ e.pos = x.w.out.pos
                    /\ (e.e \in {"start", "end"} => e.out = x.v)
                    /\ (e.e \in {"write", "marshal"} => W(e.n) = Sub(x.w.out.pos, m.w.out.pos))
                    /\ (e.e = "seek" => e.n = x.w.out.pos)
                 THEN Run(m.k + 1, x.w) ELSE Rej(m)

StepF == [q \in Any |-> Step(q[1], q[2])]

VARIABLES c, i, m
Stride == 32
At(k) == IF k <= Len(Recs) THEN Run(1, WInit) ELSE Idle
Init == c \in 0..(Stride - 1) /\ i = c + 1 /\ m = At(c + 1)
Next == /\ i <= Len(Recs)
        /\ IF m.st = "run" THEN i' = i /\ m' = StepF[<<Recs[i], m>>]
           ELSE i' = i + Stride /\ m' = At(i + Stride)
        /\ c' = c
Ok == /\ i <= Len(Recs) \/ PrintT(<<"END", c>>)
      /\ m.st # "rej" \/ PrintT(<<"REJECT", i>>)
=============================================================================
