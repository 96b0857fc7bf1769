------------------------------ MODULE GenMovie ------------------------------
(***************************************************************************)
(* Movies to probe: brands, tracks of every kind with sample and chunk     *)
(* tables that point into the media data (length-prefixed NAL units),      *)
(* fragments; boxes in any order, missing, twice, in unknown versions.     *)
(* Every box is generated from its layout; the tables are then made to     *)
(* agree with the media data (or, sometimes, not to).                      *)
(***************************************************************************)
EXTENDS Gen, Probe, Json, IOUtils

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
From  == Env("GEN_FROM", 0)
Count == Env("GEN_COUNT", 100)
Salt  == Env("GEN_SALT", 1)
Tame  == Env("GEN_TAME", 0)           \* 1: nothing missing, nothing odd
Live  == Env("GEN_LIVE", 0)           \* 1: a movie whose samples are in its fragments (but for one track in four)

t_free == T4(102,114,101,101)
t_hev1 == T4(104,101,118,49)
t_hdlr == T4(104,100,108,114)
t_mfhd == T4(109,102,104,100)
t_btrt == T4(98,116,114,116)
t_pssh == T4(112,115,115,104)
t_odd  == T4(113,113,113,113)

Hdr(type, pay, r) ==
  IF Pick(Sub2(r, 31), 11) = 0 THEN <<0,0,0,1>> \o type \o W(16 + Len(pay)) \o pay
  ELSE SubSeq(W(8 + Len(pay)), 5, 8) \o type \o pay
\* a generated box, its value changed by Fix, with children
Bx(type, ctx, Fix(_), kids, r) ==
  LET def == ResolveX(type, ctx, Reg)
      p0 == Encode(def.layout, Fix(GenBox(def, ctx, 0, Nx(Sub2(r, 7)))), ctx).b
      \* now and then a version nobody knows
      p  == IF Tame = 0 /\ def.versions # {} /\ Pick(Sub2(r, 33), 60) = 0 THEN <<77>> \o Tail(p0) ELSE p0
  IN  Hdr(type, p \o kids, r)
Same(v) == v
RndF == [q \in Any |-> Nx(Sub2(q[1], q[2]))]
Rnd(r, k) == RndF[<<r, k>>]
Odds(r, k, n) == Tame = 0 /\ Pick(Rnd(r, k), n) = 0

Cat(s) == FlattenSeq(s)
Tup(s) == s \o <<>>       \* evaluated at once
\* parts in some order; one may be missing, one of the others may come on top
Arrange(parts, others, r) ==
  LET n == Len(parts)
      k == IF n = 0 THEN 0 ELSE Pick(Rnd(r, 1), n)
      a == IF Odds(r, 2, 14) /\ n > 0 THEN SubSeq(parts, 1, k) \o SubSeq(parts, k + 2, n) ELSE parts
      b == IF Odds(r, 3, 9) /\ others # <<>> THEN a \o <<others[Pick(Rnd(r, 4), Len(others)) + 1]>> ELSE a
      m == Len(b)
      d == IF m = 0 THEN 0 ELSE Pick(Rnd(r, 5), m)
      c == IF Pick(Rnd(r, 6), 2) = 0 THEN b ELSE SubSeq(b, d + 1, m) \o SubSeq(b, 1, d)
      e == IF Pick(Rnd(r, 7), 3) = 0 THEN Reverse(c) ELSE c
      noise == IF Odds(r, 8, 5) THEN <<Hdr(t_free, GenBytes(r, 5), r)>> ELSE IF Odds(r, 9, 9) THEN <<Hdr(t_odd, GenBytes(r, 9), r)>> ELSE <<>>
  IN  Cat(noise \o e)
\* ------------------------------------------------------------ media samples
NalHeads == <<5, 101, 37, 69, 1, 65, 6, 7, 8, 9, 0, 133, 21>>
Nal(r, ls) ==
  LET n == OneOf(Rnd(r, 1), <<0, 1, 1, 2, 3, 6, 11>>)
      say == IF Odds(r, 2, 15) THEN OneOf(Rnd(r, 3), <<200, 17, 0, 13>>) ELSE n
      b == IF n = 0 THEN <<>> ELSE <<OneOf(Rnd(r, 4), NalHeads)>> \o GenBytes(Rnd(r, 5), n - 1)
      lead == IF Odds(r, 6, 25) /\ ls > 1 THEN [k \in 1..ls |-> 255] ELSE ToBytes(W(say), ls)
  IN  lead \o b
SampleBytes(r, ls) == Cat([k \in 1..OneOf(Rnd(r, 1), <<0, 1, 1, 2, 2, 3, 4>>) |-> Nal(Rnd(r, 1 + k), ls)])
Padded(b, n) == [k \in 1..n |-> IF k <= Len(b) THEN b[k] ELSE 0]
MaxLen(s) == FoldLeft(LAMBDA m, x : IF Len(x) > m THEN Len(x) ELSE m, 0, s)

\* ------------------------------------------------------- audio configuration
BitsOf(n, w) == [k \in 1..w |-> (n \div 2 ^ (w - k)) % 2]
BytesOfBits(b) == LET n == (Len(b) + 7) \div 8  at(k) == IF k <= Len(b) THEN b[k] ELSE 0 IN
  [k \in 1..n |-> ((((((at(8*k-7) * 2 + at(8*k-6)) * 2 + at(8*k-5)) * 2 + at(8*k-4)) * 2 + at(8*k-3)) * 2 + at(8*k-2)) * 2 + at(8*k-1)) * 2 + at(8*k)]
AotBits(v) == IF v < 31 THEN BitsOf(v, 5) ELSE BitsOf(31, 5) \o BitsOf(v - 32, 6)
Freq(s, r) == IF s = 15 THEN BitsOf(Pick(Rnd(r, 10), 20000), 24) ELSE <<>>
\* the whole configuration: aot, frequency, channels, ga bits, extension
AscBits(aot, sf, ch, ga, tag, x, sbr, sf2, ps, on, r) ==
  BytesOfBits(AotBits(aot) \o BitsOf(sf, 4) \o Freq(sf, r) \o BitsOf(ch, 4) \o BitsOf(0, ga)
              \o BitsOf(tag, 11) \o AotBits(x) \o (IF sbr THEN <<1>> ELSE <<0>>) \o BitsOf(sf2, 4) \o Freq(sf2, Rnd(r, 13))
              \o BitsOf(ps, 11) \o BitsOf(on, 1))
Asc(r) ==
  LET bs == AscBits(OneOf(Rnd(r, 1), <<2, 2, 2, 2, 1, 5, 29, 34, 42>>), OneOf(Rnd(r, 2), <<3, 4, 11, 15>>), OneOf(Rnd(r, 3), <<1, 2, 6>>),
                    OneOf(Rnd(r, 4), <<0, 0, 0, 3>>), OneOf(Rnd(r, 6), <<695, 695, 695, 694>>), OneOf(Rnd(r, 5), <<5, 5, 5, 22, 31 + 11, 2>>),
                    Pick(Rnd(r, 7), 4) # 0, OneOf(Rnd(r, 8), <<3, 6, 15>>), OneOf(Rnd(r, 9), <<1352, 1352, 1351>>), Pick(Rnd(r, 11), 2), r)
      n == OneOf(Rnd(r, 12), <<Len(bs), Len(bs), Len(bs), 2, 3, 4, 5, 1, 0, 6, 7>>)
  IN  IF n > Len(bs) THEN bs ELSE SubSeq(bs, 1, n)
\* one after the other: every kind of configuration, cut after every number of bytes
AscAt(i) ==
  LET sf  == <<4, 15>>[(i % 2) + 1]
      x   == <<5, 22, 5>>[((i \div 2) % 3) + 1]
      sf2 == <<3, 15>>[((i \div 6) % 2) + 1]
      n   == (i \div 12) % 16                            \* 0..15 bytes left out
      k   == i \div 192
      r   == Nx(Seed(Salt * 41 + i))
      aot == IF k = 0 THEN 2 ELSE OneOf(Rnd(r, 1), <<2, 2, 2, 1, 5, 29, 34, 42, 33>>)
      bs  == AscBits(aot, sf, IF k = 0 THEN 2 ELSE Pick(Rnd(r, 2), 16), IF k % 2 = 1 THEN 3 ELSE 0, IF k > 1 /\ Pick(Rnd(r, 3), 6) = 0 THEN 694 ELSE 695,
                     x, k = 0 \/ Pick(Rnd(r, 4), 5) # 0, sf2, IF k > 0 /\ Pick(Rnd(r, 5), 5) = 0 THEN 1351 ELSE 1352, IF k = 0 THEN 1 ELSE Pick(Rnd(r, 6), 2), r)
  IN  IF n > Len(bs) THEN <<>> ELSE SubSeq(bs, 1, Len(bs) - n)
\* the sequence a player would find: AAC-LC 44100 stereo, SBR signalled behind the three GA bits
AscIso == BytesOfBits(BitsOf(2, 5) \o BitsOf(4, 4) \o BitsOf(2, 4) \o BitsOf(0, 3) \o BitsOf(695, 11) \o BitsOf(5, 5)
                      \o <<1>> \o BitsOf(4, 4))

DescOf(tag, r, def, ctx) ==
  LET v == GenBox(def, ctx, 0, r)
      m == SelectSeq(v.Descriptors, LAMBDA x : x.Tag = W(tag))
  IN  m
ZDesc == ZeroTab["Descriptor"]
\* with the given audio configuration (some other one if the first is no sequence of bytes)
Esds0(ctx, r, fix) ==
  LET iso == Len(fix) = 1
      asc == IF iso THEN fix[1] ELSE Asc(Rnd(r, 1))
      oti == IF iso THEN 64 ELSE OneOf(Rnd(r, 2), <<64, 64, 64, 64, 102, 107, 0>>)
      cfg == [ZDesc EXCEPT !.Tag = W(4), !.Size = W(13 + 2 + Len(asc)),
                !.DecoderConfigDescriptor = <<[ZeroTab["DecoderConfigDescriptor"] EXCEPT !.ObjectTypeIndication = W(oti), !.MaxBitrate = GenRaw(r, 32)]>>]
      es == [ZDesc EXCEPT !.Tag = W(3), !.Size = W(3), !.ESDescriptor = <<ZeroTab["ESDescriptor"]>>]
      inf == [ZDesc EXCEPT !.Tag = W(5), !.Size = W(Len(asc)), !.Data = asc]
      asc2 == Asc(Rnd(r, 8))
      inf2 == [ZDesc EXCEPT !.Tag = W(5), !.Size = W(Len(asc2)), !.Data = asc2]
      sl == [ZDesc EXCEPT !.Tag = W(6), !.Size = W(1), !.Data = <<2>>]
      ds == OneOf(Rnd(r, 3), IF iso THEN << <<es, cfg, inf, sl>> >>
                             ELSE << <<es, cfg, inf, sl>>, <<es, cfg, inf, sl>>, <<es, cfg, inf>>, <<cfg, inf>>,
                                    <<es, cfg, inf, inf2>>, <<es, inf, cfg>>, <<es, cfg>>, <<es, sl>>, <<>> >>)
  IN  Bx(t_esds, ctx, LAMBDA v : [v EXCEPT !.Descriptors = ds], <<>>, r)
EsdsF == [q \in Any |-> Esds0(q[1], q[2], q[3])]
Esds(ctx, r, iso) == EsdsF[<<ctx, r, IF iso THEN <<AscIso>> ELSE <<>> >>]
\* ------------------------------------------------------------------- tracks
Plan0(r) ==
  LET runs == Tup([k \in 1..(IF Live = 1 /\ Pick(Rnd(r, 9), 4) # 0 THEN 0 ELSE OneOf(Rnd(r, 1), <<0, 1, 1, 2, 3>>)) |->
                 [n |-> OneOf(Rnd(r, 10 + k), <<0, 1, 1, 2, 3, 4>>), d |-> GenRaw(Rnd(r, 20 + k), 32)]])
      ns == FoldLeft(LAMBDA a, x : a + x.n, 0, runs)
      ls == 1 + Pick(Rnd(r, 2), 4)
      raw == Tup([k \in 1..ns |-> SampleBytes(Rnd(r, 30 + k), ls)])
      const == Pick(Rnd(r, 3), 4) = 0
      ml == MaxLen(raw)
      samples == IF const THEN Tup([k \in 1..ns |-> Tup(Padded(raw[k], ml))]) ELSE raw
      nch == OneOf(Rnd(r, 4), <<0, 1, 2, 3, 4, 5>>)
      ne == OneOf(Rnd(r, 5), <<1, 1, 1, 2, 3, 0>>)
      mess == Odds(r, 6, 8)
      stsc == Tup([k \in 1..ne |->
                [ZeroTab["StscEntry"] EXCEPT
                  !.FirstChunk = IF mess THEN W(Pick(Rnd(r, 50 + k), 7)) ELSE W(1 + (k - 1) * (1 + Pick(Rnd(r, 7), 2))),
                  !.SamplesPerChunk = IF Odds(r, 60 + k, 20) THEN GenRaw(Rnd(r, 70), 32) ELSE W(OneOf(Rnd(r, 80 + k), <<1, 2, 1, 3, 0>>)),
                  !.SampleDescriptionIndex = W(1)]])
  IN  [runs |-> runs, ns |-> ns, ls |-> ls, samples |-> samples, const |-> const /\ ml > 0, ml |-> ml, nch |-> nch, stsc |-> stsc,
       kind |-> OneOf(Rnd(r, 8), <<1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 0>>)]
PlanF == [q \in Any |-> Plan0(q[1])]
Plan(r) == PlanF[<<r>>]
DataOfPlan(p) == Cat(p.samples)
Offsets(p, base) ==
  LET cs == Tup(ChunksOf(Tup([k \in 1..p.nch |-> Z8]), [Entries |-> p.stsc]))
      upto(k) == FoldLeft(LAMBDA a, j : LET n == N(cs[j].spc) IN IF a + n > p.ns THEN p.ns ELSE a + n, 0, [j \in 1..(k - 1) |-> j])
      lens(n) == FoldLeft(LAMBDA a, j : a + Len(p.samples[j]), 0, [j \in 1..n |-> j])
  IN  Tup([k \in 1..p.nch |-> W(base + lens(upto(k)))])

Stbl0(p, base, ctx, r) ==
  LET ls == p.ls
      avcC(q) == IF Odds(q, 21, 8) THEN <<>> ELSE Bx(t_avcC, ctx, LAMBDA v : [v EXCEPT !.LengthSizeMinusOne = W(ls - 1)], <<>>, q)
      extra(q) == IF Odds(q, 22, 4) THEN Bx(t_btrt, ctx, Same, <<>>, q) ELSE <<>>
      vis(t, q) == Bx(t, ctx, Same, extra(q) \o avcC(Rnd(q, 23)), q)
      es(q, c, k) == IF k = 0 \/ Odds(q, 24, 9) THEN <<>> ELSE Esds(c, q, FALSE)
      aud(t, q) == Bx(t, ctx, Same, es(Rnd(q, 25), ctx, 1) \o extra(q), q)
      wav(q) == Bx(t_mp4a, ctx, Same, Bx(T_wave, ctx, Same, es(Rnd(q, 25), [ctx EXCEPT !.wave = TRUE], 1), Rnd(q, 26)) \o es(Rnd(q, 27), ctx, Pick(q, 2)), q)
      r1 == Rnd(r, 1)
      entries == CASE p.kind = 1 -> vis(t_avc1, r1) [] p.kind = 2 -> vis(t_encv, r1)
                   [] p.kind = 3 -> aud(t_mp4a, r1) [] p.kind = 4 -> aud(t_enca, r1) [] p.kind = 5 -> wav(r1)
                   [] p.kind = 6 -> vis(t_avc1, r1) \o aud(t_mp4a, Rnd(r, 2))
                   [] p.kind = 7 -> vis(t_encv, r1) \o vis(t_avc1, Rnd(r, 2))
                   [] OTHER -> Bx(t_hev1, ctx, Same, <<>>, r1)
      stsd == Bx(t_stsd, ctx, Same, entries, Rnd(r, 3))
      stts(q) == Bx(t_stts, ctx, LAMBDA v : [v EXCEPT !.EntryCount = W(Len(p.runs)),
                   !.Entries = [k \in DOMAIN p.runs |-> [ZeroTab["SttsEntry"] EXCEPT !.SampleCount = W(p.runs[k].n), !.SampleDelta = p.runs[k].d]]], <<>>, q)
      ctts(q) == Bx(t_ctts, ctx, LAMBDA v : [v EXCEPT !.Entries = [k \in DOMAIN v.Entries |->
                   [v.Entries[k] EXCEPT !.SampleCount = IF Odds(q, 41, 9) THEN <<0,0,0,0,255,255,255,255>> ELSE W(Pick(Rnd(q, 41 + k), 5))]]], <<>>, q)
      stsc == Bx(t_stsc, ctx, LAMBDA v : [v EXCEPT !.EntryCount = W(Len(p.stsc)), !.Entries = p.stsc], <<>>, Rnd(r, 5))
      sizes == LET s == [k \in 1..p.ns |-> W(Len(p.samples[k]))] IN
               IF Odds(r, 43, 9) /\ p.ns > 0 THEN Tail(s) ELSE IF Odds(r, 44, 9) THEN Append(s, W(3)) ELSE s
      stsz == Bx(t_stsz, ctx, LAMBDA v :
                IF p.const THEN [v EXCEPT !.SampleSize = W(p.ml), !.SampleCount = IF Odds(r, 45, 5) THEN GenRaw(r, 32) ELSE IF Odds(r, 46, 5) /\ p.ns > 0 THEN W(p.ns - 1) ELSE W(p.ns), !.EntrySize = <<>>]
                ELSE [v EXCEPT !.SampleSize = Z8, !.SampleCount = W(Len(sizes)), !.EntrySize = sizes], <<>>, Rnd(r, 6))
      offs == Offsets(p, base)
      big == Pick(Rnd(r, 7), 3) = 0
      huge == Odds(r, 47, 8)
      co(q) == IF big THEN Bx(t_co64, ctx, LAMBDA v : [v EXCEPT !.EntryCount = W(Len(offs)), !.ChunkOffset = IF huge THEN [k \in DOMAIN offs |-> GenRaw(Rnd(q, k), 64)] ELSE offs], <<>>, q)
               ELSE Bx(t_stco, ctx, LAMBDA v : [v EXCEPT !.EntryCount = W(Len(offs)), !.ChunkOffset = offs], <<>>, q)
      both == IF Odds(r, 48, 9) THEN <<Bx(IF big THEN t_stco ELSE t_co64, ctx, Same, <<>>, Rnd(r, 8))>> ELSE <<>>
      q == Rnd(r, 9)
  IN  Bx(t_stbl, ctx, Same,
         Arrange(<<stsd, stts(q), stsc, co(q)>> \o (IF Odds(r, 49, 5) THEN <<>> ELSE <<stsz>>) \o both
                 \o (IF Pick(Rnd(r, 51), 2) = 0 THEN <<ctts(q)>> ELSE <<>>),
                 <<Bx(t_ctts, ctx, LAMBDA v : [v EXCEPT !.Entries = [k \in DOMAIN v.Entries |-> [v.Entries[k] EXCEPT !.SampleCount = W(2)]]], <<>>, Rnd(r, 52)),
                   Bx(t_stsz, ctx, Same, <<>>, Rnd(r, 53)), Bx(t_stco, ctx, Same, <<>>, Rnd(r, 54)), Bx(t_stsc, ctx, Same, <<>>, Rnd(r, 55)),
                   Bx(t_stsd, ctx, Same, vis(t_encv, Rnd(r, 57)) , Rnd(r, 56)), Bx(t_stsd, ctx, Same, aud(t_enca, Rnd(r, 58)), Rnd(r, 56))>>, r), r)
StblF == [q \in Any |-> Stbl0(q[1], q[2], q[3], q[4])]
Stbl(p, base, ctx, r) == StblF[<<p, base, ctx, r>>]
Trak0(p, base, ctx, r) ==
  LET tkhd(q) == Bx(t_tkhd, ctx, LAMBDA v : IF Live = 1 THEN [v EXCEPT !.TrackID = W(1 + Pick(Rnd(q, 1), 2))] ELSE v, <<>>, q)
      mdhd(q) == Bx(t_mdhd, ctx, Same, <<>>, q)
      edts == IF Pick(Rnd(r, 1), 2) = 0 THEN <<Bx(t_edts, ctx, Same, Arrange(<<Bx(t_elst, ctx, Same, <<>>, Rnd(r, 2))>>, <<Bx(t_elst, ctx, Same, <<>>, Rnd(r, 3))>>, r), Rnd(r, 4))>> ELSE <<>>
      minf == Bx(t_minf, ctx, Same, Stbl(p, base, ctx, Rnd(r, 5)), Rnd(r, 6))
      mdia == Bx(t_mdia, ctx, Same, Arrange(<<mdhd(Rnd(r, 7)), Bx(t_hdlr, ctx, Same, <<>>, Rnd(r, 8)), minf>>, <<mdhd(Rnd(r, 9))>>, Rnd(r, 10)), Rnd(r, 11))
  IN  Bx(t_trak, ctx, Same, Arrange(<<tkhd(Rnd(r, 12)), mdia>> \o edts, <<tkhd(Rnd(r, 13))>>, Rnd(r, 14)), r)
TrakF == [q \in Any |-> Trak0(q[1], q[2], q[3], q[4])]
Trak(p, base, ctx, r) == TrakF[<<p, base, ctx, r>>]
Moov0(plans, base, ctx, r) ==
  LET start(k) == FoldLeft(LAMBDA a, j : a + Len(DataOfPlan(plans[j])), base, [j \in 1..(k - 1) |-> j])
      mvhd(q) == Bx(t_mvhd, ctx, Same, <<>>, q)
  IN  Bx(t_moov, ctx, Same, Arrange(<<mvhd(Rnd(r, 1))>> \o [k \in DOMAIN plans |-> Trak(plans[k], start(k), ctx, Rnd(r, 1 + k))],
                                    <<mvhd(Rnd(r, 9))>>, Rnd(r, 10)), r)
MoovF == [q \in Any |-> Moov0(q[1], q[2], q[3], q[4])]
Moov(plans, base, ctx, r) == MoovF[<<plans, base, ctx, r>>]
\* ---------------------------------------------------------------- fragments
Traf0(ctx, r) ==
  LET tfhd(q) == Bx(t_tfhd, ctx, LAMBDA v : [v EXCEPT !.TrackID = IF Live = 1 THEN W(1 + Pick(Rnd(q, 1), 2)) ELSE W(Pick(Rnd(q, 1), 4))], <<>>, q)
      tfdt(q) == IF Pick(q, 4) = 0 THEN <<>> ELSE <<Bx(t_tfdt, ctx, Same, <<>>, q)>>
      trun(q) == Bx(t_trun, ctx, Same, <<>>, q)
      k == OneOf(Rnd(r, 2), <<0, 1, 1, 1, 1, 2>>)
  IN  Bx(t_traf, ctx, Same, Arrange(<<tfhd(Rnd(r, 3))>> \o tfdt(Rnd(r, 4)) \o [j \in 1..k |-> trun(Rnd(r, 5 + j))],
                                    <<tfhd(Rnd(r, 9)), trun(Rnd(r, 10))>>, Rnd(r, 11)), r)
TrafF == [q \in Any |-> Traf0(q[1], q[2])]
Traf(ctx, r) == TrafF[<<ctx, r>>]
Moof0(ctx, r) ==
  Bx(t_moof, ctx, Same, Arrange(<<Bx(t_mfhd, ctx, Same, <<>>, Rnd(r, 1)), Traf(ctx, Rnd(r, 2))>>, <<Traf(ctx, Rnd(r, 3))>>, Rnd(r, 4)), r)
MoofF == [q \in Any |-> Moof0(q[1], q[2])]
Moof(ctx, r) == MoofF[<<ctx, r>>]
\* -------------------------------------------------------------------- movie
Ftyp(qt, r) ==
  Bx(T_ftyp, CtxEmpty, LAMBDA v : [v EXCEPT !.CompatibleBrands =
      SelectSeq(v.CompatibleBrands, LAMBDA b : b.CompatibleBrand # BrandQT) \o (IF qt THEN <<[CompatibleBrand |-> BrandQT]>> ELSE <<>>)], <<>>, r)

\* letters: f ftyp, F free, v moov, d the mdat of the tracks, g moof with mdat, w another moov, D another mdat
Orders == << <<"f","v","d">>, <<"f","d","v">>, <<"f","v","d","g","g">>, <<"f","F","v","g","g","g">>, <<"d","f","v">>,
             <<"f","v">>, <<"v","d">>, <<"f","g","g">>, <<"f","v","d","w">>, <<"f","w","D","v","d">>, <<"F","f","d","v","g">>, <<"f","f","v","d">>, <<"f">>, <<>> >>

LiveOrders == << <<"f","v","g","g","g">>, <<"f","v","d","g","F","g","g","g","g">>, <<"f","g","g","v">>, <<"v","g">> >>

Movie0(i) ==
  LET r == Nx(Seed(Salt * 911 + i))
      order == IF Live = 1 THEN LiveOrders[(i % 4) + 1] ELSE IF Env("GEN_FRAG", 0) = 1 THEN <<"f", "g", "g", "g", "F", "g", "g">> ELSE IF Tame = 1 THEN Orders[(i % 11) + 1] ELSE Orders[(i % Len(Orders)) + 1]
      qt == Pick(Rnd(r, 2), 4) = 0
      \* the QuickTime brand counts for what comes after ftyp
      ctx(k) == IF qt /\ \E j \in 1..(k - 1) : order[j] = "f" THEN [CtxEmpty EXCEPT !.qt = TRUE] ELSE CtxEmpty
      plans == Tup([k \in 1..OneOf(Rnd(r, 3), <<0, 1, 1, 1, 2, 2, 3>>) |-> Plan(Rnd(r, 3 + k))])
      plans2 == <<Plan(Rnd(r, 9))>>
      mdat == Hdr(t_mdat, Cat([k \in DOMAIN plans |-> DataOfPlan(plans[k])]), Rnd(r, 10))
      hdr == IF mdat[4] = 1 /\ SubSeq(mdat, 1, 3) = <<0,0,0>> THEN 16 ELSE 8
      part(k, base) ==
        LET q == Rnd(r, 20 + k) IN
        CASE order[k] = "f" -> Ftyp(qt, q)
          [] order[k] = "F" -> Hdr(t_free, GenBytes(q, Pick(q, 9)), q)
          [] order[k] = "v" -> Moov(plans, base, ctx(k), q)
          [] order[k] = "w" -> Moov(plans2, base, ctx(k), q)
          [] order[k] = "d" -> mdat
          [] order[k] = "D" -> Hdr(t_mdat, GenBytes(q, 9), q)
          [] order[k] = "g" -> Moof(ctx(k), q) \o Hdr(t_mdat, GenBytes(q, Pick(q, 20)), q)
      d == SelectInSeq(order, LAMBDA x : x = "d")
      before == Tup([k \in 1..(IF d = 0 THEN 0 ELSE d - 1) |-> part(k, 0)])      \* for its length
      base == IF d = 0 THEN 0 ELSE FoldLeft(LAMBDA a, x : a + Len(x), hdr, before)
      whole == Cat([k \in DOMAIN order |-> IF k < d /\ order[k] \notin {"v", "w"} THEN before[k] ELSE part(k, base)])
  IN  [i |-> i, f |-> whole]
\* a movie of one track, which has nothing but its audio configuration
AacMovie(i, asc) ==
  LET r == Seed(Salt)
      c == CtxEmpty
      empty(t, layout) == SubSeq(W(8 + Len(Encode(layout, ZeroTab[layout], c).b)), 5, 8) \o t \o Encode(layout, ZeroTab[layout], c).b
      box(t, kids) == SubSeq(W(8 + Len(kids)), 5, 8) \o t \o kids
      stsd == box(t_stsd, Encode("Stsd", ZeroTab["Stsd"], c).b \o
                box(t_mp4a, Encode("AudioSampleEntry", ZeroTab["AudioSampleEntry"], c).b \o EsdsF[<<c, r, <<asc>> >>]))
      stbl == box(t_stbl, stsd \o empty(t_stts, "Stts") \o empty(t_stsc, "Stsc") \o empty(t_stco, "Stco"))
      mdia == box(t_mdia, empty(t_mdhd, "Mdhd") \o box(t_minf, stbl))
  IN  [i |-> i, f |-> box(t_moov, box(t_trak, empty(t_tkhd, "Tkhd") \o mdia))]

\* the first movie shows the AAC signalling as ISO/IEC 14496-3 has it
MovieF == [i \in Any |-> IF Env("GEN_ASC", 0) = 1 THEN AacMovie(i, AscAt(i))
                         ELSE IF i = 0 /\ Env("GEN_ISO", 0) = 1 THEN AacMovie(-1, AscIso) ELSE Movie0(i)]

VARIABLES c, i
Init == c \in 0..7 /\ i = -1
Next == /\ i' = (IF i = -1 THEN From + c ELSE i + 8)
        /\ i' < From + Count
        /\ c' = c
Emit == i = -1 \/ PrintT("CASE " \o ToJson(MovieF[i]))
=============================================================================
