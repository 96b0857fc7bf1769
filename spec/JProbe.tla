-------------------------------- MODULE JProbe --------------------------------
(***************************************************************************)
(* Judges recorded Probe, FindIDRFrames and bitrate calls.                 *)
(***************************************************************************)
EXTENDS Probe, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

SameInfo(r, iso) ==
  LET p == ProbeOf(r.f, iso) IN
  IF p.st # "ok" THEN r.st \notin {"ok", "panic", "hang"}
  ELSE r.st = "ok" /\ r.info = p.v

\* "ok", "known" or "bad"
JProbe(r) ==
  LET idr(k) == LET x == IdrOf(r.f, r.info.tracks[k]) IN
                IF x.st = "ok" THEN r.idrs[k].st = "ok" /\ r.idrs[k].v = x.v ELSE r.idrs[k].st \notin {"ok", "panic", "hang"}
  IN  IF r.st = "ok" /\ r.idr /\ ~(\A k \in DOMAIN r.info.tracks : idr(k)) THEN "bad"
      ELSE IF SameInfo(r, TRUE) THEN "ok"
      ELSE IF SameInfo(r, FALSE) THEN "aac-sync-extension"
      ELSE "bad"

JIdr(r) ==
  LET x == IdrOf(r.f, r.track) IN
  IF x.st = "ok" THEN r.st = "ok" /\ r.v = x.v ELSE r.st = "err"

JRate(r) ==
  /\ r.st = "ok"
  /\ IsRateOfSamples(r.samples, r.timescale, r.rate)
  /\ \A k \in DOMAIN r.deltas : IsMaxOfSamples(r.samples, r.timescale, r.deltas[k], r.maxs[k])
  /\ IsRateOfSegments(r.segs, r.id, r.timescale, r.srate)
  /\ IsMaxOfSegments(r.segs, r.id, r.timescale, r.smax)

Judge(r) ==
  CASE r.op = "probe" -> JProbe(r)
    [] r.op = "idr" -> IF JIdr(r) THEN "ok" ELSE "bad"
    [] r.op = "rate" -> IF JRate(r) THEN "ok" ELSE "bad"

VARIABLES c, i
Stride == 8
Init == c \in 0..(Stride - 1) /\ i = 0
Next == /\ i' = (IF i = 0 THEN c + 1 ELSE i + Stride)
        /\ i' <= Len(Recs)
        /\ c' = c
Ok == i = 0 \/ LET v == Judge(Recs[i]) IN
        CASE v = "ok" -> TRUE
          [] v = "bad" -> PrintT(<<"REJECT", i>>)
          [] OTHER -> PrintT(<<"KNOWN", i, v>>)
=============================================================================
