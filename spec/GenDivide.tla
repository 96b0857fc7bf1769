------------------------------ MODULE GenDivide ------------------------------
(***************************************************************************)
(* Fragmented files to divide: tracks of every kind, their fragments in    *)
(* any interleaving, durations from the runs, the fragment headers and the *)
(* defaults of the movie; boxes missing, twice, or where they do not       *)
(* belong.                                                                 *)
(***************************************************************************)
EXTENDS GenMovie

t_mvexG == T4(109,118,101,120)
t_trexG == T4(116,114,101,120)
t_udtaG == T4(117,100,116,97)
t_sidxG == T4(115,105,100,120)
t_mfraG == T4(109,102,114,97)
t_mfroG == T4(109,102,114,111)
t_iods == T4(105,111,100,115)

Bad(r, k, n) == Env("GEN_ODD", 0) = 1 /\ Pick(Rnd(r, k), n) = 0
U32(n) == W(n)
AnyId == << W(1), W(2), W(3), W(7), <<0,0,0,0,255,255,255,255>>, Z8 >>
Scales == << W(1), W(1000), W(90000), W(44100), <<0,0,0,0,255,255,255,255>>, W(12800) >>

\* kind 1..4 as in Kinds, 5 another sample entry, 0 none
EntryOf(kind, ctx, r) ==
  LET extra == IF Pick(Rnd(r, 1), 3) = 0 THEN Bx(t_btrt, ctx, Same, <<>>, Rnd(r, 2)) ELSE <<>> IN
  CASE kind = 1 -> Bx(t_avc1, ctx, Same, extra, r) [] kind = 2 -> Bx(t_mp4a, ctx, Same, extra, r)
    [] kind = 3 -> Bx(t_encv, ctx, Same, extra, r) [] kind = 4 -> Bx(t_enca, ctx, Same, extra, r)
    [] kind = 5 -> Bx(t_hev1, ctx, Same, extra, r) [] OTHER -> <<>>
DTrak(kind, id, ts, ctx, r) ==
  LET tkhd(q) == Bx(t_tkhd, ctx, LAMBDA v : [v EXCEPT !.TrackID = id], <<>>, q)
      mdhd(q) == Bx(t_mdhd, ctx, LAMBDA v : [v EXCEPT !.Timescale = ts], <<>>, q)
      both == IF Bad(r, 1, 6) THEN EntryOf(1 + Pick(Rnd(r, 2), 4), ctx, Rnd(r, 3)) ELSE <<>>
      stsd == Bx(t_stsd, ctx, Same, EntryOf(kind, ctx, Rnd(r, 4)) \o both, Rnd(r, 5))
      stbl == Bx(t_stbl, ctx, Same, stsd, Rnd(r, 6))
      mdia == Bx(t_mdia, ctx, Same, (IF Bad(r, 7, 20) THEN <<>> ELSE mdhd(Rnd(r, 8))) \o Bx(t_minf, ctx, Same, stbl, Rnd(r, 9))
                                    \o (IF Bad(r, 10, 25) THEN mdhd(Rnd(r, 11)) ELSE <<>>), Rnd(r, 12))
      a == IF Bad(r, 13, 20) THEN <<>> ELSE tkhd(Rnd(r, 14))
      b == IF Bad(r, 15, 25) THEN tkhd(Rnd(r, 16)) ELSE <<>>
  IN  Bx(t_trak, ctx, Same, IF Pick(Rnd(r, 17), 4) = 0 THEN mdia \o a \o b ELSE a \o b \o mdia, r)

DTraf(id, ctx, r) ==
  LET tfhd(q) == Bx(t_tfhd, ctx, LAMBDA v : [v EXCEPT !.TrackID = id], <<>>, q)
      trun(q) == Bx(t_trun, ctx, Same, <<>>, q)
      tfdt == IF Pick(Rnd(r, 1), 3) = 0 THEN <<>> ELSE Bx(t_tfdt, ctx, Same, <<>>, Rnd(r, 2))
      n == OneOf(Rnd(r, 3), <<1, 1, 1, 1, 2, 3, 0>>)
      runs == Cat([k \in 1..n |-> trun(Rnd(r, 10 + k))])
      h == IF Bad(r, 4, 25) THEN <<>> ELSE tfhd(Rnd(r, 5))
      h2 == IF Bad(r, 6, 25) THEN tfhd(Rnd(r, 7)) ELSE <<>>
  IN  Bx(t_traf, ctx, Same, IF Pick(Rnd(r, 8), 5) = 0 THEN tfdt \o runs \o h \o h2 ELSE h \o h2 \o tfdt \o runs, r)
DMoof(id, ctx, r) ==
  Bx(t_moof, ctx, Same, Bx(t_mfhd, ctx, Same, <<>>, Rnd(r, 1)) \o (IF Bad(r, 2, 30) THEN <<>> ELSE DTraf(id, ctx, Rnd(r, 3)))
                        \o (IF Bad(r, 4, 20) THEN DTraf(id, ctx, Rnd(r, 5)) ELSE <<>>), r)
DMdat(r) == Hdr(t_mdat, GenBytes(r, OneOf(Rnd(r, 1), <<0, 1, 5, 20, 60>>)), r)

Divide0(n0) ==
  LET r == Nx(Seed(Salt * 677 + n0))
      ctx == CtxEmpty
      n == OneOf(Rnd(r, 1), <<1, 2, 2, 2, 3, 4, IF Bad(r, 2, 4) THEN 0 ELSE 2>>)
      turn == Pick(Rnd(r, 3), 4)
      \* kinds that differ, but for one file in so many
      kind(k) == IF Pick(Rnd(r, 30 + k), 12) = 0 THEN 5 ELSE IF Bad(r, 40 + k, 25) THEN 1 ELSE 1 + ((k + turn) % 4)
      shift == Pick(Rnd(r, 4), 6)
      id(k) == AnyId[1 + ((k + shift) % 6)]
      ts(k) == IF Bad(r, 50 + k, 25) THEN Z8 ELSE IF Pick(Rnd(r, 60 + k), 5) = 0 THEN AddN(GenRaw(Rnd(r, 70 + k), 20), 1) ELSE OneOf(Rnd(r, 80 + k), Scales)
      traks == Cat([k \in 1..n |-> DTrak(kind(k), id(k), ts(k), ctx, Rnd(r, 100 + k))])
      trex(k) == Bx(t_trexG, ctx, LAMBDA v : [v EXCEPT !.TrackID = id(k)], <<>>, Rnd(r, 120 + k))
      mvex == IF Pick(Rnd(r, 5), 5) = 0 THEN <<>>
              ELSE Bx(t_mvexG, ctx, Same, Cat([k \in 1..(IF Pick(Rnd(r, 6), 6) = 0 THEN n \div 2 ELSE n) |-> trex(k)]), Rnd(r, 7))
      udta == IF Pick(Rnd(r, 8), 3) = 0 THEN Bx(t_udtaG, ctx, Same, <<>>, Rnd(r, 9)) ELSE <<>>
      pssh(k) == IF Pick(Rnd(r, k), 3) = 0 THEN Bx(t_pssh, ctx, Same, <<>>, Rnd(r, k)) ELSE <<>>
      mvhd == Bx(t_mvhd, ctx, Same, <<>>, Rnd(r, 10))
      stray == IF Bad(r, 11, 15) THEN OneOf(Rnd(r, 12), <<Hdr(t_free, <<1>>, r), DMoof(id(1), ctx, r), DMdat(r), Hdr(t_mfraG, <<>>, r), Hdr(t_odd, <<2>>, r)>>) ELSE <<>>
      inside == IF Pick(Rnd(r, 13), 2) = 0 THEN mvhd \o traks \o stray \o mvex \o udta \o pssh(14) ELSE pssh(14) \o mvhd \o mvex \o traks \o udta \o stray
      moov == Bx(t_moov, ctx, Same, inside, Rnd(r, 15))
      sidx(k) == IF Pick(Rnd(r, k), 3) = 0 THEN Bx(t_sidxG, ctx, Same, <<>>, Rnd(r, k)) ELSE <<>>
      nf == OneOf(Rnd(r, 16), <<0, 1, 2, 3, 4, 5, 6, 8>>)
      frag(k) ==
        LET q == Rnd(r, 200 + k)
            who == IF n = 0 \/ Pick(Rnd(q, 1), 9) = 0 THEN OneOf(Rnd(q, 2), AnyId) ELSE id(1 + Pick(Rnd(q, 3), n))
            m == OneOf(Rnd(q, 4), <<1, 1, 1, 1, 2, 0>>)
        IN  DMoof(who, ctx, Rnd(q, 5)) \o Cat([j \in 1..m |-> DMdat(Rnd(q, 5 + j))]) \o (IF Pick(Rnd(q, 9), 8) = 0 THEN sidx(17) ELSE <<>>)
      frags == Cat([k \in 1..nf |-> frag(k)])
      mfra == IF Pick(Rnd(r, 18), 2) = 0 THEN Hdr(t_mfraG, Bx(t_mfroG, ctx, Same, <<>>, r), r) ELSE <<>>
      early == IF Pick(Rnd(r, 19), 6) = 0 THEN DMdat(Rnd(r, 20)) ELSE <<>>
      junk == IF Bad(r, 21, 12) THEN OneOf(Rnd(r, 22), <<Hdr(t_free, <<>>, r), Hdr(t_odd, <<>>, r)>>) ELSE <<>>
      ftyp == Ftyp(FALSE, Rnd(r, 23))
      head == ftyp \o pssh(24) \o early
  IN  [i |-> n0, f |-> IF Pick(Rnd(r, 25), 8) = 0 THEN head \o frags \o sidx(26) \o moov \o junk \o mfra
                      ELSE head \o moov \o sidx(26) \o frags \o junk \o mfra \o (IF Pick(Rnd(r, 27), 9) = 0 THEN frag(nf + 1) ELSE <<>>)]
DivideF == [n0 \in Any |-> Divide0(n0)]
EmitD == i = -1 \/ PrintT("CASE " \o ToJson(DivideF[i]))
=============================================================================
