------------------------------- MODULE JFault -------------------------------
(***************************************************************************)
(* Judges operations on failing devices (C10): r.out holds the outcomes    *)
(* with the call that failed; and operations under different reading       *)
(* habits: what was observed must not depend on them.                      *)
(***************************************************************************)
EXTENDS Faults, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

JF(r) ==
  CASE r.op = "fault" ->
         /\ r.st \notin {"panic", "hang"}
         /\ \A k \in DOMAIN r.out : LET o == r.out[k] IN OutcomeOk(r.f, r.k, o.mode, o.st, o.pos, o.late)
    [] r.op = "same" ->
         /\ \A k \in DOMAIN r.sigs : r.sigs[k] = r.sigs[1]
         /\ \A k \in DOMAIN r.sts : r.sts[k] \notin {"panic", "hang"}

JFF == [q \in Any |-> JF(q[1])]

VARIABLES c, i
Stride == 8
Init == c \in 0..(Stride - 1) /\ i = 0
Next == /\ i' = (IF i = 0 THEN c + 1 ELSE i + Stride)
        /\ i' <= Len(Recs)
        /\ c' = c
Ok == i = 0 \/ JFF[<<Recs[i]>>] \/ PrintT(<<"REJECT", i>>)
=============================================================================
