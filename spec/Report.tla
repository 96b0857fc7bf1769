------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* The report of mp4tool probe: the values of Probe, times in seconds,     *)
(* names of codecs and bitrates.                                           *)
(***************************************************************************)
EXTENDS Probe, Text

\* ------------------------------------------------------------------ seconds
\* the float32 number m * 2^e is n / d but for rounding (16-byte arithmetic; n < 2^64, d < 2^32)
RECURSIVE Shl16(_, _)
Shl16(a, k) == IF k = 0 THEN a
               ELSE IF k >= 8 THEN Shl16(Tail(a) \o <<0>>, k - 8)
               ELSE Shl16(Add16(a, a), k - 1)
RECURSIVE SubLen(_, _, _, _)
SubLen(a, b, k, c) == IF k = 0 THEN <<>> ELSE LET s == a[k] - b[k] - c IN
                      Append(SubLen(a, b, k - 1, IF s < 0 THEN 1 ELSE 0), IF s < 0 THEN s + 256 ELSE s)
Sub16(a, b) == SubLen(a, b, 16, 0)
Dist16(a, b) == IF LtW(a, b) THEN Sub16(b, a) ELSE Sub16(a, b)
Shr22(a) == LET s == Shl16(<<0>> \o SubSeq(a, 1, 15), 2) IN <<0, 0>> \o SubSeq(s, 1, 14)      \* (a >> 8 << 2) >> 16
IsQuotient(x, n, d) ==
  /\ x.k = "num"
  /\ IF n = Z8 THEN x.m = Z8
     ELSE LET a == IF x.e >= 0 THEN Shl16(MulW(x.m, d), x.e) ELSE MulW(x.m, d)
              b == IF x.e >= 0 THEN Wide(n) ELSE Shl16(Wide(n), 0 - x.e)
          IN  -100 < x.e /\ x.e < 60 /\ ~LtW(Shr22(b), Dist16(a, b))

\* -------------------------------------------------------------------- texts
\* as JSON shows a text: what is no UTF-8 is replaced
RECURSIVE Sanitized(_, _, _)
Sanitized(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == CharAt(s, i) IN
       IF c.n = 0 THEN Sanitized(s, i + 1, acc \o Replacement) ELSE Sanitized(s, i + c.n, acc \o SubSeq(s, i, i + c.n - 1))
ShownAs(s, json) == IF json THEN Sanitized(s, 1, <<>>) ELSE s

HexUp(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Up2(v) == <<HexUp(v[8] \div 16), HexUp(v[8] % 16)>>
UpHex(v) == IF v[8] < 16 THEN <<HexUp(v[8])>> ELSE Up2(v)
Dot == <<46>>
CodecText(t) ==
  CASE t.codec = 1 -> IF t.avc = <<>> THEN T("avc1")
                      ELSE T("avc1") \o Dot \o Up2(t.avc[1].profile) \o Up2(t.avc[1].compat) \o Up2(t.avc[1].level)
    [] t.codec = 2 -> IF t.mp4a = <<>> THEN T("mp4a")
                      ELSE IF t.mp4a[1].oti = Z8 THEN T("mp4a")
                      ELSE T("mp4a") \o Dot \o UpHex(t.mp4a[1].oti)
                           \o (IF t.mp4a[1].aud = Z8 THEN <<>> ELSE Dot \o DecU(t.mp4a[1].aud))
    [] OTHER -> T("unknown")

\* the bitrates of the samples, or of the fragments when either is zero
RatesOk(p, t, rate, max) ==
  LET s == t.samples  own == IsRateOfSamples(s, t.timescale, rate) /\ IsMaxOfSamples(s, t.timescale, t.timescale, max)
      seg == IsRateOfSegments(p.segs, t.id, t.timescale, rate) /\ IsMaxOfSegments(p.segs, t.id, t.timescale, max)
      zero == IsRateOfSamples(s, t.timescale, Z8) \/ IsMaxOfSamples(s, t.timescale, t.timescale, Z8)
  IN  IF zero THEN seg ELSE own

\* e: what is reported about track t of movie p
TrackAgrees(F, p, t, e) ==
  LET vis == t.codec = 1 /\ t.avc # <<>>
      x == IF t.codec = 1 THEN IdrOf(F, t) ELSE [st |-> "ok", v |-> <<>>]
  IN  /\ e.id = t.id /\ e.timescale = t.timescale /\ e.duration = t.duration /\ e.enc = t.enc
      /\ e.timescale = Z8 \/ IsQuotient(e.secs, t.duration, t.timescale)
      /\ e.codec = CodecText(t)
      /\ e.width = (IF vis THEN t.avc[1].w ELSE Z8) /\ e.height = (IF vis THEN t.avc[1].h ELSE Z8)
      /\ e.samples = W(Len(t.samples)) /\ e.chunks = W(Len(t.chunks))
      /\ x.st = "ok" /\ e.idrs = W(Len(x.v))
      /\ RatesOk(p, t, e.bitrate, e.max)

\* st: how the command ended, e: its report
ReportAgrees(F, iso, st, json, e, msg) ==
  LET m == ProbeOf(F, iso)
      p == m.v
      idr(k) == p.tracks[k].codec = 1 /\ IdrOf(F, p.tracks[k]).st # "ok"
      nan == p.timescale = Z8 \/ \E k \in DOMAIN p.tracks : p.tracks[k].timescale = Z8
  IN  IF m.st # "ok" THEN st = "fail" /\ msg
      ELSE IF \E k \in DOMAIN p.tracks : idr(k) THEN st = "fail" /\ msg
      \* there is no number of seconds: JSON has no value for that
      ELSE IF json /\ nan /\ st = "fail" THEN msg
      ELSE /\ st = "ok" /\ DOMAIN e # {} /\ DOMAIN e # {1}
           /\ e.major = ShownAs(p.major, json) /\ e.minor = p.minor /\ e.fast = p.fast
           /\ Len(e.brands) = Len(p.brands) /\ \A k \in DOMAIN p.brands : e.brands[k] = ShownAs(p.brands[k], json)
           /\ e.timescale = p.timescale /\ e.duration = p.duration
           /\ p.timescale = Z8 \/ IsQuotient(e.secs, p.duration, p.timescale)
           /\ Len(e.tracks) = Len(p.tracks)
           /\ \A k \in DOMAIN p.tracks : TrackAgrees(F, p, p.tracks[k], e.tracks[k])
=============================================================================
