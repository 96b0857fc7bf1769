-------------------------------- MODULE Probe --------------------------------
(***************************************************************************)
(* What a file says about its movie: brands, tracks, sample and chunk      *)
(* tables, fragments; which samples are IDR frames; bitrates.              *)
(***************************************************************************)
EXTENDS Extract

T4(a,b,c,d) == <<a, b, c, d>>
t_moov == T4(109,111,111,118)
t_mvhd == T4(109,118,104,100)
t_trak == T4(116,114,97,107)
t_moof == T4(109,111,111,102)
t_mdat == T4(109,100,97,116)
t_tkhd == T4(116,107,104,100)
t_edts == T4(101,100,116,115)
t_elst == T4(101,108,115,116)
t_mdia == T4(109,100,105,97)
t_mdhd == T4(109,100,104,100)
t_minf == T4(109,105,110,102)
t_stbl == T4(115,116,98,108)
t_stsd == T4(115,116,115,100)
t_avc1 == T4(97,118,99,49)
t_avcC == T4(97,118,99,67)
t_encv == T4(101,110,99,118)
t_mp4a == T4(109,112,52,97)
t_enca == T4(101,110,99,97)
t_esds == T4(101,115,100,115)
t_stco == T4(115,116,99,111)
t_co64 == T4(99,111,54,52)
t_stts == T4(115,116,116,115)
t_ctts == T4(99,116,116,115)
t_stsc == T4(115,116,115,99)
t_stsz == T4(115,116,115,122)
t_traf == T4(116,114,97,102)
t_tfhd == T4(116,102,104,100)
t_tfdt == T4(116,102,100,116)
t_trun == T4(116,114,117,110)

Err == [st |-> "err", v |-> <<>>]
Okv(v) == [st |-> "ok", v |-> v]

FileVer(v) == v.FullBox.Version[8]
HasFlag(v, mask) == FlagsMeet(v, mask)

\* ------------------------------------------------------------------ AAC
RECURSIVE BitsVal(_, _, _)
BitsVal(d, p, n) ==     \* n bits from bit p (0-based), n <= 24
  IF n = 0 THEN 0
  ELSE 2 * BitsVal(d, p, n - 1) + ((d[((p + n - 1) \div 8) + 1] \div P2[8 - ((p + n - 1) % 8)]) % 2)
Has(d, p, n) == p + n <= 8 * Len(d)

\* audio object type at bit p: [ok, v, p]
Aot(d, p) ==
  IF ~Has(d, p, 5) THEN [ok |-> FALSE, v |-> 0, p |-> p]
  ELSE IF BitsVal(d, p, 5) # 31 THEN [ok |-> TRUE, v |-> BitsVal(d, p, 5), p |-> p + 5]
  ELSE IF ~Has(d, p, 11) THEN [ok |-> FALSE, v |-> 0, p |-> p]
  ELSE [ok |-> TRUE, v |-> BitsVal(d, p + 5, 6) + 32, p |-> p + 11]
\* sampling frequency index at bit p: the position behind it, or -1
Sfi(d, p) == IF ~Has(d, p, 4) THEN -1
             ELSE IF BitsVal(d, p, 4) # 15 THEN p + 4
             ELSE IF Has(d, p, 28) THEN p + 28 ELSE -1

\* the synchronisation extension at bit p, if any: [ok, v]
SyncExt(d, p, aot) ==
  LET no == [ok |-> TRUE, v |-> aot]  bad == [ok |-> FALSE, v |-> 0] IN
  IF ~Has(d, p, 16) THEN no
  ELSE IF BitsVal(d, p, 11) # 695 THEN no              \* 0x2b7
  ELSE LET x == Aot(d, p + 11) IN
       IF ~x.ok THEN bad
       ELSE IF x.v \notin {5, 22} THEN no
       ELSE IF ~Has(d, x.p, 1) THEN bad
       ELSE IF BitsVal(d, x.p, 1) = 0 THEN no
       ELSE IF x.v = 22 THEN [ok |-> TRUE, v |-> 5]
       ELSE LET q == Sfi(d, x.p + 1) IN
            IF q < 0 THEN bad
            ELSE IF Has(d, q, 12) /\ BitsVal(d, q, 11) = 1352 /\ BitsVal(d, q + 11, 1) = 1      \* 0x548
                 THEN [ok |-> TRUE, v |-> 29] ELSE [ok |-> TRUE, v |-> 5]

\* gap: bits between the channel configuration and the extension
AudioType(d, gap) ==
  LET a == Aot(d, 0)
      p == IF a.ok THEN Sfi(d, a.p) ELSE -1
  IN  IF p < 0 THEN [ok |-> FALSE, v |-> 0]
      ELSE IF a.v = 2 /\ Has(d, p, 20 + gap) THEN SyncExt(d, p + 4 + gap, 2)
      ELSE [ok |-> TRUE, v |-> a.v]
\* ISO/IEC 14496-3: GASpecificConfig of three bits (when there is a channel
\* configuration and no core coder) precedes the extension
IsoGap(d) ==
  LET a == Aot(d, 0)  p == IF a.ok THEN Sfi(d, a.p) ELSE -1 IN
  IF p >= 0 /\ a.v = 2 /\ Has(d, p, 7) /\ BitsVal(d, p, 4) # 0 /\ BitsVal(d, p + 5, 1) = 0 THEN 3 ELSE 0

FirstTag(ds, tag) == SelectInSeq(ds, LAMBDA x : x.Tag = W(tag))
\* esds: [ok, oti, aud]
Aac(esds, iso) ==
  LET ds == esds.Descriptors
      c == FirstTag(ds, 4)
      s == FirstTag(ds, 5)
  IN  IF c = 0 \/ ds[c].DecoderConfigDescriptor = <<>> THEN [ok |-> TRUE, oti |-> 0, aud |-> 0]
      ELSE LET oti == ds[c].DecoderConfigDescriptor[1].ObjectTypeIndication[8] IN
           IF oti # 64 THEN [ok |-> TRUE, oti |-> oti, aud |-> 0]
           ELSE IF s = 0 THEN [ok |-> FALSE, oti |-> 0, aud |-> 0]
           ELSE LET x == AudioType(ds[s].Data, IF iso THEN IsoGap(ds[s].Data) ELSE 0)
                IN  [ok |-> x.ok, oti |-> 64, aud |-> x.v]

\* ---------------------------------------------------------------- tracks
StblP(t) == <<t_mdia, t_minf, t_stbl, t>>
StsdP(t) == <<t_mdia, t_minf, t_stbl, t_stsd, t>>
TrackPaths == <<
  <<t_tkhd>>, <<t_edts, t_elst>>, <<t_mdia, t_mdhd>>,
  StsdP(t_avc1), Append(StsdP(t_avc1), t_avcC), StsdP(t_encv), Append(StsdP(t_encv), t_avcC),
  StsdP(t_mp4a), Append(StsdP(t_mp4a), t_esds), Append(StsdP(t_mp4a), T_wave) \o <<t_esds>>,
  StsdP(t_enca), Append(StsdP(t_enca), t_esds),
  StblP(t_stco), StblP(t_co64), StblP(t_stts), StblP(t_ctts), StblP(t_stsc), StblP(t_stsz) >>

\* the boxes of some paths below bi with their payloads: [ok, xs]
Below(F, bi, ctx, paths) ==
  LET e == Extraction(F, <<[bi |-> bi, ctx |-> ctx]>>, paths)
      ds == [k \in DOMAIN e.bs |-> PayloadOf(F, e.bs[k].bi, e.bs[k].ctx, Reg)]
  IN  IF e.st # "ok" \/ \E k \in DOMAIN ds : ds[k].st # "ok" THEN [ok |-> FALSE, xs |-> <<>>]
      ELSE [ok |-> TRUE, xs |-> [k \in DOMAIN ds |-> [type |-> e.bs[k].bi.type, v |-> ds[k].v]]]

LastOf(xs, types) == SelectLastInSeq(xs, LAMBDA x : x.type \in types)

SeqSum(s) == FoldLeft(Add, Z8, s)

\* the runs of stts as one entry per sample
RunSamples(stts) ==
  FoldLeft(LAMBDA acc, e : acc \o [k \in 1..N(e.SampleCount) |-> e.SampleDelta], <<>>, stts.Entries)
RunOffsets(ctts) ==
  LET off(e) == IF FileVer(ctts) = 0 THEN e.SampleOffsetV0 ELSE IF FileVer(ctts) = 1 THEN e.SampleOffsetV1 ELSE Z8
      cap(n) == IF n > 3000 THEN 3000 ELSE n          \* no file in the checks has more samples
  IN  FoldLeft(LAMBDA acc, e : acc \o [k \in 1..cap(N(e.SampleCount)) |-> off(e)], <<>>, ctts.Entries)

SamplesOf(stts, ctts, stsz) ==
  LET ds == RunSamples(stts)
      os == IF ctts = <<>> THEN <<>> ELSE RunOffsets(ctts[1])
      size(k) == IF stsz = <<>> THEN Z8
                 ELSE IF k <= Len(stsz[1].EntrySize) THEN stsz[1].EntrySize[k]
                 ELSE IF Lt(W(k - 1), stsz[1].SampleCount) THEN stsz[1].SampleSize ELSE Z8
  IN  [k \in DOMAIN ds |-> [size |-> size(k), delta |-> ds[k], cto |-> IF k <= Len(os) THEN os[k] ELSE Z8]]

\* chunk k (from 1) belongs to the last run that starts at or before it and is
\* not ended by the start of the following run
ChunksOf(offs, stsc) ==
  LET es == stsc.Entries
      covers(e, k) == /\ es[e].FirstChunk # Z8 /\ Le(es[e].FirstChunk, W(k))
                      /\ (e = Len(es) \/ es[e + 1].FirstChunk = Z8 \/ Lt(W(k), es[e + 1].FirstChunk))
      runs(k) == {e \in DOMAIN es : covers(e, k)}
  IN  [k \in DOMAIN offs |->
         [off |-> offs[k],
          spc |-> IF runs(k) = {} THEN Z8
                  ELSE es[CHOOSE e \in runs(k) : \A f \in runs(k) : f <= e].SamplesPerChunk]]

TrackOf(F, bi, ctx, iso) ==
  LET b == Below(F, bi, ctx, TrackPaths)
      xs == b.xs
      Get(t) == LET k == LastOf(xs, {t}) IN IF k = 0 THEN <<>> ELSE <<xs[k].v>>
      tkhd == Get(t_tkhd)  elst == Get(t_elst)  mdhd == Get(t_mdhd)  avcC == Get(t_avcC)
      esds == Get(t_esds)  stco == Get(t_stco)  co64 == Get(t_co64)  stts == Get(t_stts)
      ctts == Get(t_ctts)  stsc == Get(t_stsc)  stsz == Get(t_stsz)
      vis == LastOf(xs, {t_avc1, t_encv})
      aud == LastOf(xs, {t_mp4a, t_enca})
      kind == LastOf(xs, {t_avc1, t_encv, t_mp4a, t_enca})
      aac == IF aud # 0 /\ esds # <<>> THEN Aac(esds[1], iso) ELSE [ok |-> TRUE, oti |-> 0, aud |-> 0]
  IN  IF ~b.ok \/ tkhd = <<>> \/ mdhd = <<>> \/ ~aac.ok \/ (stco = <<>> /\ co64 = <<>>) \/ stts = <<>> \/ stsc = <<>>
      THEN Err
      ELSE Okv([
        id |-> tkhd[1].TrackID,
        timescale |-> mdhd[1].Timescale,
        duration |-> CASE FileVer(mdhd[1]) = 0 -> mdhd[1].DurationV0 [] FileVer(mdhd[1]) = 1 -> mdhd[1].DurationV1 [] OTHER -> Z8,
        codec |-> IF kind = 0 THEN 0 ELSE IF xs[kind].type \in {t_avc1, t_encv} THEN 1 ELSE 2,
        enc |-> LastOf(xs, {t_encv, t_enca}) # 0,
        edits |-> IF elst = <<>> THEN <<>>
                  ELSE LET e == elst[1] IN [k \in DOMAIN e.Entries |->
                         CASE FileVer(e) = 0 -> [time |-> e.Entries[k].MediaTimeV0, dur |-> e.Entries[k].SegmentDurationV0]
                           [] FileVer(e) = 1 -> [time |-> e.Entries[k].MediaTimeV1, dur |-> e.Entries[k].SegmentDurationV1]
                           [] OTHER -> [time |-> Z8, dur |-> Z8]],
        avc |-> IF vis = 0 \/ avcC = <<>> THEN <<>>
                ELSE <<[cv |-> avcC[1].ConfigurationVersion, profile |-> avcC[1].Profile,
                        compat |-> avcC[1].ProfileCompatibility, level |-> avcC[1].Level,
                        ls |-> AddN(avcC[1].LengthSizeMinusOne, 1),
                        w |-> xs[vis].v.Width, h |-> xs[vis].v.Height]>>,
        mp4a |-> IF aud = 0 \/ esds = <<>> THEN <<>>
                 ELSE <<[oti |-> W(aac.oti), aud |-> W(aac.aud), ch |-> xs[aud].v.ChannelCount]>>,
        chunks |-> ChunksOf(IF stco # <<>> THEN stco[1].ChunkOffset ELSE co64[1].ChunkOffset, stsc[1]),
        samples |-> SamplesOf(stts[1], ctts, stsz)])

\* -------------------------------------------------------------- fragments
MoofPaths == << <<t_traf, t_tfhd>>, <<t_traf, t_tfdt>>, <<t_traf, t_trun>> >>

Cto(trun, e) == CASE FileVer(trun) = 0 -> e.SampleCompositionTimeOffsetV0
                  [] FileVer(trun) = 1 -> e.SampleCompositionTimeOffsetV1 [] OTHER -> Z8

SegmentOf(F, bi, ctx) ==
  LET b == Below(F, bi, ctx, MoofPaths)
      xs == b.xs
      Get(t) == LET k == LastOf(xs, {t}) IN IF k = 0 THEN <<>> ELSE <<xs[k].v>>
      tfhd == Get(t_tfhd)  tfdt == Get(t_tfdt)  trun == Get(t_trun)
  IN  IF ~b.ok \/ tfhd = <<>> THEN Err
      ELSE
      LET h == tfhd[1]
          es == IF trun = <<>> THEN <<>> ELSE trun[1].Entries
          perDur == trun # <<>> /\ HasFlag(trun[1], 256)
          perSize == trun # <<>> /\ HasFlag(trun[1], 512)
          n == IF trun = <<>> THEN Z8 ELSE trun[1].SampleCount
          dur(k) == IF perDur THEN es[k].SampleDuration ELSE h.DefaultSampleDuration
          before(k) == SeqSum([j \in 1..(k - 1) |-> dur(j)])
          cts(k) == SExt32(Add(before(k), Cto(trun[1], es[k])))
          least(k) == \A j \in DOMAIN es : ~SLt(cts(j), cts(k))
      IN Okv([
        id |-> h.TrackID, off |-> bi.off,
        base |-> IF tfdt = <<>> THEN Z8
                 ELSE IF FileVer(tfdt[1]) = 0 THEN tfdt[1].BaseMediaDecodeTimeV0 ELSE tfdt[1].BaseMediaDecodeTimeV1,
        defdur |-> h.DefaultSampleDuration, count |-> n,
        dur |-> Low32(IF perDur THEN SeqSum([k \in DOMAIN es |-> es[k].SampleDuration]) ELSE Mul(h.DefaultSampleDuration, n)),
        size |-> Low32(IF perSize THEN SeqSum([k \in DOMAIN es |-> es[k].SampleSize]) ELSE Mul(h.DefaultSampleSize, n)),
        cto |-> IF es = <<>> THEN Z8 ELSE cts(CHOOSE k \in DOMAIN es : least(k))])

\* ------------------------------------------------------------------- movie
MoviePaths == << <<T_ftyp>>, <<t_moov>>, <<t_moov, t_mvhd>>, <<t_moov, t_trak>>, <<t_moof>>, <<t_mdat>> >>

ProbeOf(F, iso) ==
  LET e == Extraction(F, <<>>, MoviePaths)
      bs == e.bs
      Of(t) == SelectSeq(bs, LAMBDA x : x.bi.type = t)
      ftyps == Of(T_ftyp)  mvhds == Of(t_mvhd)  moovs == Of(t_moov)  mdats == Of(t_mdat)
      fts == [k \in DOMAIN ftyps |-> DecodeAt([layout |-> "Ftyp", versions |-> {}], F, PayOff(ftyps[k].bi), PaySize(ftyps[k].bi), ftyps[k].ctx)]
      mvs == [k \in DOMAIN mvhds |-> PayloadOf(F, mvhds[k].bi, mvhds[k].ctx, Reg)]
      tks == [k \in DOMAIN Of(t_trak) |-> TrackOf(F, Of(t_trak)[k].bi, Of(t_trak)[k].ctx, iso)]
      sgs == [k \in DOMAIN Of(t_moof) |-> SegmentOf(F, Of(t_moof)[k].bi, Of(t_moof)[k].ctx)]
      bad(s) == \E k \in DOMAIN s : s[k].st # "ok"
      ft == IF fts = <<>> THEN <<>> ELSE <<fts[Len(fts)].v>>
      mv == IF mvs = <<>> THEN <<>> ELSE <<mvs[Len(mvs)].v>>
  IN  IF e.st # "ok" \/ bad(fts) \/ bad(mvs) \/ bad(tks) \/ bad(sgs) THEN Err
      ELSE Okv([
        major |-> IF ft = <<>> THEN <<0,0,0,0>> ELSE ft[1].MajorBrand,
        minor |-> IF ft = <<>> THEN Z8 ELSE ft[1].MinorVersion,
        brands |-> IF ft = <<>> THEN <<>> ELSE [k \in DOMAIN ft[1].CompatibleBrands |-> ft[1].CompatibleBrands[k].CompatibleBrand],
        fast |-> moovs # <<>> /\ \A k \in DOMAIN mdats : Lt(moovs[Len(moovs)].bi.off, mdats[k].bi.off),
        timescale |-> IF mv = <<>> THEN Z8 ELSE mv[1].Timescale,
        duration |-> IF mv = <<>> THEN Z8 ELSE IF FileVer(mv[1]) = 0 THEN mv[1].DurationV0 ELSE mv[1].DurationV1,
        tracks |-> [k \in DOMAIN tks |-> tks[k].v],
        segs |-> [k \in DOMAIN sgs |-> sgs[k].v]])

\* ------------------------------------------------------------- IDR frames
\* does the sample of `size` bytes at off contain an IDR slice? "yes", "no", "err"
RECURSIVE HasIdr(_, _, _, _, _)
HasIdr(F, off, size, at, ls) ==
  IF Lt(size, AddN(at, ls + 1)) THEN "no"
  ELSE LET p == Add(off, at)
           h == FBytes(F, p, ls + 1)
       IN  IF IsNeg(p) \/ Len(h) < ls + 1 THEN "err"
           ELSE IF h[ls + 1] % 32 = 5 THEN "yes"
           ELSE LET n == FromBytes(SubSeq(h, 1, ls)) IN
                IF Lt(size, n) THEN "no" ELSE HasIdr(F, off, size, Add(at, AddN(n, ls)), ls)

\* position of sample k (0-based) among the chunks, and the answer for all samples
IdrOf(F, track) ==
  IF track.avc = <<>> THEN [st |-> "ok", v |-> <<>>]
  ELSE IF track.avc[1].ls = Z8 THEN [st |-> "err", v |-> <<>>]
  ELSE
  LET ls == N(track.avc[1].ls)
      ns == Len(track.samples)
      Sample(acc, k) ==        \* acc: off, st, v; k: sample number from 1
        IF acc.st # "ok" THEN acc
        ELSE LET s == track.samples[k]
                 x == HasIdr(F, acc.off, s.size, Z8, ls)
             IN  [off |-> Add(acc.off, s.size), st |-> IF x = "err" THEN "err" ELSE "ok",
                  v |-> IF x = "yes" THEN Append(acc.v, k - 1) ELSE acc.v]
      Chunk(acc, c) ==         \* acc: next sample, st, v
        LET n == N(c.spc)
            last == IF acc.si + n < ns THEN acc.si + n ELSE ns
            r == FoldLeft(Sample, [off |-> c.off, st |-> acc.st, v |-> acc.v], [j \in 1..(last - acc.si) |-> acc.si + j])
        IN  [si |-> last, st |-> r.st, v |-> r.v]
      res == FoldLeft(Chunk, [si |-> 0, st |-> "ok", v |-> <<>>], track.chunks)
  IN  [st |-> res.st, v |-> res.v]

\* --------------------------------------------------------------- bitrates
\* naturals of 16 bytes
RECURSIVE AddLen(_, _, _, _)
AddLen(a, b, k, c) == IF k = 0 THEN <<>> ELSE LET s == a[k] + b[k] + c IN Append(AddLen(a, b, k - 1, s \div 256), s % 256)
Wide(a) == Z8 \o a
Add16(a, b) == AddLen(a, b, 16, 0)
RECURSIVE MulLen(_, _, _, _)
MulLen(a, n, k, c) == IF k = 0 THEN <<>> ELSE LET s == a[k] * n + c IN Append(MulLen(a, n, k - 1, s \div 256), s % 256)
MulW(a, b) ==       \* exact product of two W64
  FoldLeft(LAMBDA acc, k : Add16(Tail(acc) \o <<0>>, IF b[k] = 0 THEN Z8 \o Z8 ELSE MulLen(Wide(a), b[k], 16, 0)), Z8 \o Z8, <<1,2,3,4,5,6,7,8>>)
RECURSIVE Lt16(_, _, _)
Lt16(a, b, k) == IF k > 16 THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE Lt16(a, b, k + 1)
LtW(a, b) == Lt16(a, b, 1)

Max64 == <<255,255,255,255,255,255,255,255>>
\* 8 * size * timescale
Bits(size, timescale) == MulW(Mul(size, W(8)), timescale)
\* q is at least / at most floor(n / d)
RateLe(n, d, q) == q = Max64 \/ LtW(n, MulW(AddN(q, 1), d))            \* floor(n/d) <= q
RateGe(n, d, q) == ~LtW(n, MulW(q, d))                                 \* floor(n/d) >= q
Fits(n, d) == LtW(n, Add16(MulW(Max64, d), Wide(d)))                   \* floor(n/d) < 2^64
IsRate(n, d, q) == IF d = Z8 THEN q = Z8 ELSE ~Fits(n, d) \/ (RateLe(n, d, q) /\ RateGe(n, d, q))

\* ws: pairs [n, d] with d # 0; q is the largest rate (0 when there is none)
IsMaxRate(ws, q) ==
  \/ \E k \in DOMAIN ws : ~Fits(ws[k].n, ws[k].d)
  \/ /\ \A k \in DOMAIN ws : RateLe(ws[k].n, ws[k].d, q)
     /\ q = Z8 \/ \E k \in DOMAIN ws : RateGe(ws[k].n, ws[k].d, q)

\* the windows the maximum is taken over: begin b, sum of size and duration so far
RECURSIVE Windows(_, _, _, _, _, _, _)
RECURSIVE Shrink(_, _, _, _, _)
Shrink(s, b, sz, du, delta) ==        \* drop the first sample, and more until du < delta
  LET x == [b |-> b + 1, sz |-> Sub(sz, s[b].size), du |-> Sub(du, s[b].delta)] IN
  IF Lt(x.du, delta) THEN x ELSE Shrink(s, x.b, x.sz, x.du, delta)
Windows(s, b, e, sz, du, delta, acc) ==      \* samples b..e-1 are in the window
  IF e > Len(s) THEN acc
  ELSE LET sz1 == Add(sz, s[e].size)  du1 == Add(du, s[e].delta) IN
       IF Lt(du1, delta) /\ e < Len(s) THEN Windows(s, b, e + 1, sz1, du1, delta, acc)
       ELSE LET x == Shrink(s, b, sz1, du1, delta)
            IN  Windows(s, x.b, e + 1, x.sz, x.du, delta, IF du1 = Z8 THEN acc ELSE Append(acc, [sz |-> sz1, du |-> du1]))

IsMaxOfSamples(s, timescale, delta, q) ==
  IF delta = Z8 THEN q = Z8
  ELSE LET ws == Windows(s, 1, 1, Z8, Z8, delta, <<>>)
       IN  IsMaxRate([k \in DOMAIN ws |-> [n |-> Bits(ws[k].sz, timescale), d |-> ws[k].du]], q)
IsRateOfSamples(s, timescale, q) ==
  IsRate(Bits(SeqSum([k \in DOMAIN s |-> s[k].size]), timescale), SeqSum([k \in DOMAIN s |-> s[k].delta]), q)

OfTrack(gs, id) == SelectSeq(gs, LAMBDA g : g.id = id)
IsRateOfSegments(gs, id, timescale, q) ==
  LET x == OfTrack(gs, id) IN
  IsRate(Bits(SeqSum([k \in DOMAIN x |-> x[k].size]), timescale), SeqSum([k \in DOMAIN x |-> x[k].dur]), q)
IsMaxOfSegments(gs, id, timescale, q) ==
  LET x == SelectSeq(OfTrack(gs, id), LAMBDA g : g.dur # Z8) IN
  IsMaxRate([k \in DOMAIN x |-> [n |-> Bits(x[k].size, timescale), d |-> x[k].dur]], q)
=============================================================================
