------------------------------- MODULE JRobust -------------------------------
(***************************************************************************)
(* Judges recorded uses of the library on arbitrary inputs.                *)
(***************************************************************************)
EXTENDS Robust, Json, IOUtils, TLC

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, i
Stride == 8
Init == c \in 0..(Stride - 1) /\ i = 0
Next == /\ i' = (IF i = 0 THEN c + 1 ELSE i + Stride)
        /\ i' <= Len(Recs)
        /\ c' = c
Ok == i = 0 \/ Fine(Recs[i]) \/ PrintT(<<"REJECT", i>>)
=============================================================================
