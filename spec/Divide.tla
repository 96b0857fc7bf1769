-------------------------------- MODULE Divide --------------------------------
(***************************************************************************)
(* What mp4tool divide makes of a fragmented file: for every track of a    *)
(* known kind the pieces of its init segment, its media segments with      *)
(* their durations, and what the playlists have to say.                    *)
(***************************************************************************)
EXTENDS Tool, Probe

t_mvex == <<109,118,101,120>>
t_trex == <<116,114,101,120>>
t_udta0 == <<117,100,116,97>>
t_sidx == <<115,105,100,120>>
t_mfra == <<109,102,114,97>>
InitTypes == {t_moov, T_ftyp, t_pssh, t_mvhd, t_trak, t_mvex, t_udta0, t_sidx}

\* kinds of tracks, in the order they are looked for
Kinds == << [t |-> t_avc1, dir |-> "video"], [t |-> t_mp4a, dir |-> "audio"],
            [t |-> t_encv, dir |-> "video_enc"], [t |-> t_enca, dir |-> "audio_enc"] >>

\* boxes of a path with their payloads; vague: the library may or may not find fault
At0(F, from, path) ==
  LET e == Extraction(F, from, <<path>>)
      ds == [k \in DOMAIN e.bs |-> PayloadOf(F, e.bs[k].bi, e.bs[k].ctx, Reg)]
  IN  [ok |-> e.st = "ok" /\ \A k \in DOMAIN ds : ds[k].st = "ok",
       found |-> e.st = "ok", n |-> Len(e.bs),
       bs |-> e.bs, vs |-> [k \in DOMAIN ds |-> ds[k].v]]
AtF == [q \in Any |-> At0(q[1], q[2], q[3])]
At(F, from, path) == AtF[<<F, from, path>>]

\* [st, v]: st "ok", "err", "none" (a track that is left out)
TrackPaths0 == << <<t_tkhd>>, <<t_mdia, t_mdhd>> >> \o [k \in 1..4 |-> StsdP(Kinds[k].t)]
TrackIn(F, x) ==
  LET e == Extraction(F, <<x>>, TrackPaths0)
      of(t) == SelectSeq(e.bs, LAMBDA y : y.bi.type = t)
      hit == SelectInSeq(Kinds, LAMBDA k : \E j \in DOMAIN e.bs : e.bs[j].bi.type = k.t)
      \* the entries of audio are not decoded
      used == of(t_tkhd) \o of(t_mdhd) \o (IF hit \in {1, 3} THEN of(Kinds[hit].t) ELSE <<>>)
      ds == [k \in DOMAIN used |-> PayloadOf(F, used[k].bi, used[k].ctx, Reg)] \o <<>>
  IN  IF e.st # "ok" \/ Len(of(t_tkhd)) # 1 \/ Len(of(t_mdhd)) # 1 \/ \E k \in DOMAIN ds : ds[k].st # "ok"
      THEN [st |-> "err", v |-> <<>>]
      ELSE [st |-> IF hit = 0 THEN "none" ELSE "ok",
            v |-> <<[id |-> ds[1].v.TrackID, ts |-> ds[2].v.Timescale,
                     dir |-> IF hit = 0 THEN "" ELSE Kinds[hit].dir,
                     w |-> IF hit \in {1, 3} THEN ds[3].v.Width ELSE Z8,
                     h |-> IF hit \in {1, 3} THEN ds[3].v.Height ELSE Z8]>>]

\* the fragment of a moof: [st, id, dur]
Fragment(F, x, trexs) ==
  LET e == Extraction(F, <<x>>, << <<t_traf, t_tfhd>>, <<t_traf, t_trun>> >>)
      of(t) == SelectSeq(e.bs, LAMBDA y : y.bi.type = t)
      values(l) == [k \in DOMAIN l |-> PayloadOf(F, l[k].bi, l[k].ctx, Reg)] \o <<>>
      hd == values(of(t_tfhd))
      rn == values(of(t_trun))
      sound == \A k \in DOMAIN rn : rn[k].st = "ok"
      h == hd[1].v
      mine == SelectSeq(trexs, LAMBDA y : y.TrackID = h.TrackID)
      default == IF HasFlag(h, 8) THEN h.DefaultSampleDuration
                 ELSE IF mine = <<>> THEN Z8 ELSE mine[Len(mine)].DefaultSampleDuration
      total(t) == IF HasFlag(t, 256) THEN SeqSum([k \in DOMAIN t.Entries |-> t.Entries[k].SampleDuration])
                  ELSE Mul(default, W(Len(t.Entries)))
  IN  IF e.st # "ok" \/ Len(hd) # 1 \/ \E k \in DOMAIN hd : hd[k].st # "ok"
      THEN [st |-> "err", id |-> Z8, trun |-> FALSE, dur |-> Z8]
      ELSE [st |-> "ok", id |-> h.TrackID, trun |-> sound,
            dur |-> IF ~sound THEN Z8 ELSE SeqSum([k \in DOMAIN rn |-> total(rn[k].v)])]

\* ---------------------------------------------------------- the second pass
\* S: init[id] = pieces, segs[id] = sequence of [ps, dur, mdats], cur = the
\* track of the fragment at hand (<<>>: none), st
RawOf(bi) == Raw(bi.off, N(bi.size))
\* the boxes of a level, [bi, ctx] each: [st, bs]
RECURSIVE ListOf(_, _, _)
ListOf(F, L, acc) ==
  LET a == Adv(F, L) IN
  IF a.a = "end" THEN [st |-> a.st, bs |-> acc]
  ELSE ListOf(F, After(L, a.bi, a.ctx, 0), Append(acc, [bi |-> a.bi, ctx |-> a.ctx, path |-> L.path]))
KidsOf(F, x) == LET p == Open(F, BoxFrame(x.bi, x.ctx, x.path, <<>>), <<>>)
                IN  IF p.st # "ok" THEN [st |-> "err", bs |-> <<>>] ELSE ListOf(F, p.L, <<>>)

\* an init box: [st, bi, id, kids]; id: the track it belongs to, if to one
RECURSIVE InitOf(_, _)
InitOf(F, x) ==
  LET t == x.bi.type
      no == [st |-> "err", bi |-> x.bi, id |-> <<>>, kids |-> <<>>]
  IN  IF t \notin InitTypes THEN no
      ELSE IF t = t_moov
      THEN LET ks == KidsOf(F, x)
               ys == [k \in DOMAIN ks.bs |-> InitOf(F, ks.bs[k])] \o <<>>
           IN  IF ks.st # "ok" \/ \E k \in DOMAIN ys : ys[k].st # "ok" THEN no
               ELSE [no EXCEPT !.st = "ok", !.kids = ys]
      ELSE IF t = t_trak
      THEN LET k == At(F, <<[bi |-> x.bi, ctx |-> x.ctx]>>, <<t_tkhd>>) IN
           IF ~k.ok \/ k.n # 1 THEN no ELSE [no EXCEPT !.st = "ok", !.id = <<k.vs[1].TrackID>>]
      ELSE [no EXCEPT !.st = "ok"]
\* its pieces for the track id: [st, ps]
RECURSIVE PiecesFor(_, _, _)
PiecesFor(F, n, id) ==
  IF n.bi.type = t_moov
  THEN LET ys == [k \in DOMAIN n.kids |-> PiecesFor(F, n.kids[k], id)] \o <<>>
           ps == FoldLeft(LAMBDA a, y : a \o y.ps, <<>>, ys)
       IN  [st |-> IF \E k \in DOMAIN ys : ys[k].st # "ok" THEN "err" ELSE "ok",
            ps |-> <<Lit(HdrBytes([n.bi EXCEPT !.size = W(n.bi.hdr + Total(ps))]))>> \o ps]
  ELSE IF n.id # <<>> /\ n.id[1] # id THEN [st |-> "ok", ps |-> <<>>]
  ELSE [st |-> IF Whole(F, n.bi) THEN "ok" ELSE "err", ps |-> <<RawOf(n.bi)>>]

\* the boxes of the top level and what becomes of each:
\* [k |-> "init" / "moof" / "mdat" / "skip" / "err", x, fr]
Fate(F, x, trexs) ==
  LET t == x.bi.type IN
  IF t \in InitTypes
  THEN LET n == InitOf(F, x) IN [k |-> IF n.st = "ok" THEN "init" ELSE "err", x |-> x, fr |-> <<n>>]
  ELSE IF t = t_moof
  THEN LET fr == Fragment(F, x, trexs) IN [k |-> IF fr.st = "ok" THEN "moof" ELSE "err", x |-> x, fr |-> <<fr>>]
  ELSE [k |-> IF t = t_mdat THEN "mdat" ELSE IF t = t_mfra THEN "skip" ELSE "err", x |-> x, fr |-> <<>>]

\* the segments of track id among the fates
SegsOf(F, fates, id) ==
  FoldLeft(LAMBDA s, a :
    IF s.st # "ok" THEN s
    ELSE IF a.k = "moof"
    THEN IF a.fr[1].id # id THEN [s EXCEPT !.on = FALSE]
         ELSE IF ~a.fr[1].trun \/ ~Whole(F, a.x.bi) THEN [s EXCEPT !.st = "err"]
         ELSE [s EXCEPT !.on = TRUE, !.segs = Append(@, [ps |-> <<RawOf(a.x.bi)>>, dur |-> a.fr[1].dur, mdats |-> <<>>])]
    ELSE IF a.k = "mdat" /\ s.on
    THEN IF ~Whole(F, a.x.bi) THEN [s EXCEPT !.st = "err"]
         ELSE [s EXCEPT !.segs[Len(s.segs)].ps = Append(@, RawOf(a.x.bi)), !.segs[Len(s.segs)].mdats = Append(@, a.x.bi.size)]
    ELSE s, [st |-> "ok", on |-> FALSE, segs |-> <<>>], fates)

\* is something in F that may or may not be a mistake?
RECURSIVE VagueIn(_, _, _)
VagueIn(F, L, n) ==
  LET a == Adv(F, L) IN
  IF a.a = "end" THEN a.vague
  ELSE LET x == BoxFrame(a.bi, a.ctx, L.path, <<>>)
           p == Open(F, x, <<>>)
       IN  \/ VagueErr(ResolveX(a.bi.type, a.ctx, Reg), F, PayOff(a.bi), PaySize(a.bi))
           \/ (p.st = "ok" /\ VagueIn(F, p.L, n + 1))
           \/ VagueIn(F, After(L, a.bi, a.ctx, 0), n)
Vague(F) == VagueIn(F, RootLevel(<<>>), 0)

NoDivision == [st |-> "err", tracks |-> <<>>]
Divided(F) ==
  LET traks == Extraction(F, <<>>, << <<t_moov, t_trak>> >>)
      trexs == At(F, <<>>, <<t_moov, t_mvex, t_trex>>)
      ts == [k \in DOMAIN traks.bs |-> TrackIn(F, traks.bs[k])] \o <<>>
      tracks == FoldLeft(LAMBDA a, y : IF y.st = "ok" THEN Append(a, y.v[1]) ELSE a, <<>>, ts)
      top == ListOf(F, RootLevel(<<>>), <<>>)
      fates == [k \in DOMAIN top.bs |-> Fate(F, top.bs[k], trexs.vs)] \o <<>>
      inits(id) == [k \in DOMAIN fates |-> IF fates[k].k # "init" THEN [st |-> "ok", ps |-> <<>>] ELSE PiecesFor(F, fates[k].fr[1], id)] \o <<>>
      out(tr) ==
        LET is == inits(tr.id)  ss == SegsOf(F, fates, tr.id)
        IN  [ok |-> ss.st = "ok" /\ \A k \in DOMAIN is : is[k].st = "ok",
             init |-> FoldLeft(LAMBDA a, y : a \o y.ps, <<>>, is), segs |-> ss.segs, tr |-> tr]
      outs == [k \in DOMAIN tracks |-> out(tracks[k])] \o <<>>
  IN  IF traks.st # "ok" \/ ~trexs.ok \/ (\E k \in DOMAIN ts : ts[k].st = "err") \/ top.st # "ok"
         \/ (\E k \in DOMAIN fates : fates[k].k = "err") \/ (\E k \in DOMAIN outs : ~outs[k].ok)
      THEN NoDivision
      ELSE IF \E j, k \in DOMAIN tracks : j # k /\ tracks[j].id = tracks[k].id THEN [st |-> "any", tracks |-> <<>>]
      ELSE [st |-> IF tracks = <<>> THEN "any"
                   ELSE IF \E j, k \in DOMAIN tracks : j # k /\ tracks[j].dir = tracks[k].dir THEN "clash" ELSE "ok",
            tracks |-> outs]

\* --------------------------------------------------------------- playlists
Million == W(1000000)
\* naturals of 16 bytes: a shifted right by 48 bits
Shr48(a) == [k \in 1..16 |-> IF k <= 6 THEN 0 ELSE a[k - 6]]
LeW(a, b) == ~LtW(b, a)
\* |a - b| <= one + (a >> 48)
Near(a, b, one) == LeW(a, Add16(b, Add16(one, Shr48(a)))) /\ LeW(b, Add16(a, Add16(one, Shr48(a))))

\* micro/10^6 is dur/ts to six digits
Seconds(micro, dur, ts) == Near(MulW(dur, Million), MulW(micro, ts), Wide(ts))
\* q is the largest of the durations, rounded up
Ceil(q, durs, ts) ==
  /\ \A k \in DOMAIN durs : LeW(Wide(durs[k]), Add16(MulW(q, ts), Shr48(Wide(durs[k]))))
  /\ \/ q = Z8 /\ \A k \in DOMAIN durs : durs[k] = Z8
     \/ q # Z8 /\ \E k \in DOMAIN durs : LeW(MulW(Sub(q, W(1)), ts), Add16(Wide(durs[k]), Shr48(Wide(durs[k]))))
\* q is within one of the largest rate 8 * size * ts / dur
RateNear(q, n, d) == LET one == Add16(Wide(d), Wide(d)) IN Near(n, MulW(q, d), one)
RateAbove(q, n, d) == LET one == Add16(Wide(d), Wide(d)) IN LeW(n, Add16(MulW(q, d), Add16(one, Shr48(n))))
Peak(q, segs, ts) ==
  LET rs == FoldLeft(LAMBDA a, s : a \o [k \in DOMAIN s.mdats |-> [n |-> Bits(s.mdats[k], ts), d |-> s.dur]], <<>>, segs)
  IN  \/ \E k \in DOMAIN rs : rs[k].d = Z8 \/ ~Fits(rs[k].n, rs[k].d)
      \/ /\ \A k \in DOMAIN rs : RateAbove(q, rs[k].n, rs[k].d)
         /\ (q = Z8 /\ rs = <<>>) \/ \E k \in DOMAIN rs : RateNear(q, rs[k].n, rs[k].d)

Plain(l, tag, v) == l.k = tag /\ l.v = v
Attrs(l, tag, as) == l.k = tag /\ \A k \in DOMAIN as : k \in DOMAIN l.attrs /\ l.attrs[k] = as[k]
\* the lines between head and tail, with names of segments
MediaList(pl, x) ==
  LET n == Len(x.segs)
      durs == [k \in 1..n |-> x.segs[k].dur] \o <<>>
      tagged(tag) == SelectSeq(pl, LAMBDA l : l.k = tag)
      names == tagged("uri")
      infs == tagged("EXTINF")
      at(k) == SelectInSeq(pl, LAMBDA l : l.k = "uri" /\ l.v = ToString(k - 1) \o ".mp4")
  IN  /\ Len(pl) = 6 + 2 * n
      /\ Plain(pl[1], "EXTM3U", "")
      /\ Plain(pl[Len(pl)], "EXT-X-ENDLIST", "")
      /\ Len(tagged("EXT-X-VERSION")) = 1
      /\ Len(tagged("EXT-X-PLAYLIST-TYPE")) = 1 /\ tagged("EXT-X-PLAYLIST-TYPE")[1].v = "VOD"
      /\ Len(tagged("EXT-X-MAP")) = 1 /\ Attrs(tagged("EXT-X-MAP")[1], "EXT-X-MAP", [URI |-> "q:init.mp4"])
      /\ Len(tagged("EXT-X-TARGETDURATION")) = 1
      /\ x.tr.ts = Z8 \/ LET q == tagged("EXT-X-TARGETDURATION")[1].n IN q # <<>> /\ Ceil(q[1], durs, x.tr.ts)
      /\ Len(names) = n /\ Len(infs) = n
      /\ \A k \in 1..n :
           /\ at(k) > 1 /\ pl[at(k)] = names[k] /\ pl[at(k) - 1] = infs[k] /\ pl[at(k) - 1].k = "EXTINF"
           /\ x.tr.ts = Z8 \/ (infs[k].micro # <<>> /\ Seconds(infs[k].micro[1], durs[k], x.tr.ts))

\* xs: the tracks
MasterList(pl, xs) ==
  LET of(dirs) == LET k == SelectInSeq(dirs, LAMBDA d : \E j \in DOMAIN xs : xs[j].tr.dir = d)
                  IN  IF k = 0 THEN <<>> ELSE SelectSeq(xs, LAMBDA x : x.tr.dir = dirs[k])
      a == of(<<"audio", "audio_enc">>)
      v == of(<<"video", "video_enc">>)
      media == <<"EXT-X-MEDIA", "EXT-X-STREAM-INF">>
      n == 1 + (IF a = <<>> THEN 0 ELSE 1) + (IF v = <<>> THEN 0 ELSE 2)
      m == IF a = <<>> THEN 2 ELSE 3       \* where the video begins
  IN  /\ Len(pl) = n
      /\ Plain(pl[1], "EXTM3U", "")
      /\ a # <<>> => Attrs(pl[2], "EXT-X-MEDIA", [TYPE |-> "AUDIO", URI |-> "q:" \o a[1].tr.dir \o "/playlist.m3u8",
                                                 AUTOSELECT |-> "YES"] @@ ("GROUP-ID" :> "q:audio" @@ "NAME" :> "q:audio"))
      /\ v # <<>> =>
           /\ pl[m].k = "EXT-X-STREAM-INF"
           /\ pl[m].w = <<v[1].tr.w>> /\ pl[m].h = <<v[1].tr.h>>
           /\ pl[m].bw # <<>> /\ (v[1].tr.ts = Z8 \/ Peak(pl[m].bw[1], v[1].segs, v[1].tr.ts))
           /\ IF a = <<>> THEN "AUDIO" \notin DOMAIN pl[m].attrs ELSE Attrs(pl[m], "EXT-X-STREAM-INF", [AUDIO |-> "q:audio"])
           /\ pl[m + 1].k = "uri" /\ pl[m + 1].v = v[1].tr.dir \o "/playlist.m3u8"
=============================================================================
