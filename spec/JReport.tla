------------------------------- MODULE JReport -------------------------------
(***************************************************************************)
(* Judges recorded runs of mp4tool probe.                                  *)
(***************************************************************************)
EXTENDS Report, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

JFF == [q \in Any |->
  LET r == q[1]
      ok(iso) == ReportAgrees(r.f, iso, r.st, r.format \in {"", "json"}, r.info, r.msg)
  IN  IF ok(TRUE) THEN 0 ELSE IF ok(FALSE) THEN 1 ELSE 2]

Ver3(i) == LET x == JFF[<<Recs[i]>>] IN
  CASE x = 0 -> TRUE
    [] x = 1 -> PrintT(<<"KNOWN", i, "aac-sync-extension">>)
    [] x = 2 -> PrintT(<<"REJECT", i>>)

VARIABLES c, i
Stride == 8
Init == c \in 0..(Stride - 1) /\ i = 0
Next == /\ i' = (IF i = 0 THEN c + 1 ELSE i + Stride)
        /\ i' <= Len(Recs)
        /\ c' = c
Ok == i = 0 \/ Ver3(i)
=============================================================================
