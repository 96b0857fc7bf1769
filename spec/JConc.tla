-------------------------------- MODULE JConc --------------------------------
(***************************************************************************)
(* Judges recorded concurrent uses: every process has, each time, the      *)
(* result it has alone, and values once obtained stay what they are.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
Fine(r) == /\ r.st = "ok"
           /\ \A p \in DOMAIN r.alone : \A k \in DOMAIN r.got[p] : r.got[p][k] = r.alone[p]
           /\ r.later = r.before

VARIABLES c, i
Stride == 8
Init == c \in 0..(Stride - 1) /\ i = 0
Next == /\ i' = (IF i = 0 THEN c + 1 ELSE i + Stride)
        /\ i' <= Len(Recs)
        /\ c' = c
Ok == i = 0 \/ Fine(Recs[i]) \/ PrintT(<<"REJECT", i>>)
=============================================================================
