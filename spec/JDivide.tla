------------------------------- MODULE JDivide -------------------------------
(***************************************************************************)
(* Judges recorded runs of mp4tool divide.                                 *)
(***************************************************************************)
EXTENDS Divide, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

Named0(fs, p) == SelectSeq(fs, LAMBDA x : x.path = p)
File(fs, p) == Named0(fs, p)[1]
Has0(fs, p) == Named0(fs, p) # <<>>

\* the files of track x are as they should be
TrackFiles(F, fs, x) ==
  LET d == x.tr.dir
      seg(k) == d \o "/" \o ToString(k - 1) \o ".mp4"
  IN  /\ Has0(fs, d \o "/init.mp4") /\ Made(File(fs, d \o "/init.mp4").f, F, x.init)
      /\ \A k \in DOMAIN x.segs : Has0(fs, seg(k)) /\ Made(File(fs, seg(k)).f, F, x.segs[k].ps)
      /\ Has0(fs, d \o "/playlist.m3u8") /\ MediaList(File(fs, d \o "/playlist.m3u8").pl, x)
Expected(xs) ==
  {"playlist.m3u8"} \cup UNION {
    {xs[j].tr.dir \o "/init.mp4", xs[j].tr.dir \o "/playlist.m3u8"}
    \cup {xs[j].tr.dir \o "/" \o ToString(k - 1) \o ".mp4" : k \in DOMAIN xs[j].segs} : j \in DOMAIN xs}
\* a track without fragments may have one empty segment file
Idle(fs, xs, p) == \E j \in DOMAIN xs : xs[j].segs = <<>> /\ p = xs[j].tr.dir \o "/0.mp4" /\ File(fs, p).f.len = Z8

JF == [q \in Any |->
  LET r == q[1]
      x == Divided(r.f)
      good == r.st = "ok"
              /\ (\A k \in DOMAIN r.files : r.files[k].path \in Expected(x.tracks) \/ Idle(r.files, x.tracks, r.files[k].path))
              /\ Has0(r.files, "playlist.m3u8") /\ MasterList(File(r.files, "playlist.m3u8").pl, x.tracks)
              /\ \A k \in DOMAIN x.tracks : TrackFiles(r.f, r.files, x.tracks[k])
      \* two tracks of a kind share a directory: the other tracks still have theirs
      alone(k) == \A j \in DOMAIN x.tracks : j = k \/ x.tracks[j].tr.dir # x.tracks[k].tr.dir
      clashing == /\ r.st = "ok" /\ Has0(r.files, "playlist.m3u8")
                  /\ \A k \in DOMAIN r.files : r.files[k].path \in Expected(x.tracks) \/ Idle(r.files, x.tracks, r.files[k].path)
                                                \/ \E j \in DOMAIN x.tracks : ~alone(j) /\ r.files[k].path = x.tracks[j].tr.dir \o "/0.mp4"
                  /\ \A k \in DOMAIN x.tracks : alone(k) => TrackFiles(r.f, r.files, x.tracks[k])
      failed == r.st = "fail" /\ r.msg
  IN  CASE x.st = "any" -> IF r.st \in {"ok", "fail"} THEN "yes" ELSE "no"
        [] x.st = "err" -> IF failed \/ (r.st \in {"ok", "fail"} /\ Vague(r.f)) THEN "yes" ELSE "no"
        [] x.st = "clash" -> IF good THEN "yes" ELSE IF clashing \/ (failed /\ Vague(r.f)) THEN "known" ELSE "no"
        [] OTHER -> IF good \/ (failed /\ Vague(r.f)) THEN "yes" ELSE "no"]
Judge(r) == JF[<<r>>]

VARIABLES c, i
Stride == 8
Init == c \in 0..(Stride - 1) /\ i = 0
Next == /\ i' = (IF i = 0 THEN c + 1 ELSE i + Stride)
        /\ i' <= Len(Recs)
        /\ c' = c
Ok == i = 0 \/ LET v == Judge(Recs[i]) IN
        CASE v = "yes" -> TRUE
          [] v = "known" -> PrintT(<<"KNOWN", i, "divide-same-kind">>)
          [] OTHER -> PrintT(<<"REJECT", i>>)
=============================================================================
