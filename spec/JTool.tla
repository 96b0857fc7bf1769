-------------------------------- MODULE JTool --------------------------------
(***************************************************************************)
(* Judges recorded runs of mp4tool edit, extract, dump and psshdump.       *)
(***************************************************************************)
EXTENDS Tool, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

\* r.st: "ok" (exit status 0), "fail" (another one); r.msg: something was said
Failed0(r) == r.st = "fail" /\ r.msg

JEdit(r) ==
  LET x == Edited(r.f, [drop |-> Range(r.drop), time |-> r.time]) IN
  IF x.st # "ok" THEN r.st = "fail"
  ELSE r.st = "ok" /\ Made(r.ofile, r.f, x.ps)

JExtractCmd(r) ==
  IF Len(r.type) # 4 THEN Failed0(r)
  ELSE \E every \in BOOLEAN, vg \in BOOLEAN :
         LET x == Extracted(r.f, r.type, [every |-> every, vg |-> vg]) IN
         IF x.st # "ok" THEN Failed0(r)
         ELSE r.st = "ok" /\ Made(r.out, r.f, x.ps)

InFull(r) == Range(r.full) \cup (IF r.mdat THEN {t_mdat} ELSE {}) \cup (IF r.free THEN {t_fre, t_skip} ELSE {})
JDump(r) ==
  \E vg \in BOOLEAN :
    LET x == Dumped(r.f, [full |-> InFull(r), all |-> r.all, offset |-> r.offset, hex |-> r.hex, vg |-> vg])
        n == Len(x.ls)
    IN  /\ Len(r.lines) >= n
        /\ \A k \in 1..n : LineIs(r.lines[k], x.ls[k])
        /\ IF x.st = "ok" THEN r.st = "ok" /\ Len(r.lines) = n ELSE Failed0(r)

JPsshDump(r) ==
  LET x == PsshDump(r.f) IN
  IF x.st # "ok" THEN Failed0(r) ELSE r.st = "ok" /\ r.lines = x.ls

JFF == [q \in Any |->
  LET r == q[1] IN
  CASE r.cmd = "edit" -> JEdit(r)
    [] r.cmd = "extract" -> JExtractCmd(r)
    [] r.cmd = "dump" -> JDump(r)
    [] r.cmd = "psshdump" -> JPsshDump(r)]
Judge(r) == JFF[<<r>>]

VARIABLES c, i
Stride == 8
Init == c \in 0..(Stride - 1) /\ i = 0
Next == /\ i' = (IF i = 0 THEN c + 1 ELSE i + Stride)
        /\ i' <= Len(Recs)
        /\ c' = c
Ok == i = 0 \/ Judge(Recs[i]) \/ PrintT(<<"REJECT", i>>)
=============================================================================
