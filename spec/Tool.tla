-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* What the commands edit, extract, dump and psshdump of mp4tool make of a *)
(* file.  An output is a sequence of pieces: literal bytes, or n bytes of  *)
(* the input from offset o.                                                *)
(***************************************************************************)
EXTENDS Extract, Text, Fourcc

t_mdat == <<109,100,97,116>>
t_skip == <<115,107,105,112>>
t_fre  == <<102,114,101,101>>
t_tfdt == <<116,102,100,116>>
t_moov == <<109,111,111,118>>
t_moof == <<109,111,111,102>>
t_pssh == <<112,115,115,104>>

Lit(b) == [raw |-> FALSE, o |-> Z8, n |-> Len(b), b |-> b]
Raw(o, n) == [raw |-> TRUE, o |-> o, n |-> n, b |-> <<>>]
Total(ps) == FoldLeft(LAMBDA a, p : a + p.n, 0, ps)
Whole(F, bi) == Le(EndOff(bi), F.len)

\* is G[go .. go+n-1] the same as F[fo .. fo+n-1]?  Long stretches: run by run.
Min2(a, b) == IF Lt(a, b) THEN a ELSE b
Max2(a, b) == IF Lt(a, b) THEN b ELSE a
SameRuns(G, go, F, fo, n) ==        \* where G has bytes F has the same
  \A k \in DOMAIN G.segs :
    LET s  == G.segs[k]
        lo == Max2(s.o, go)
        hi == Min2(AddN(s.o, Len(s.b)), AddN(go, n))
    IN  Lt(lo, hi) => FBytes(F, Add(fo, Sub(lo, go)), N(Sub(hi, lo))) = FBytes(G, lo, N(Sub(hi, lo)))
SameRange(G, go, F, fo, n) ==
  IF n <= 5000 THEN FBytes(G, go, n) = FBytes(F, fo, n)
  ELSE /\ Le(AddN(go, n), G.len) /\ Le(AddN(fo, n), F.len)
       /\ SameRuns(G, go, F, fo, n) /\ SameRuns(F, fo, G, go, n)

\* is G made of these pieces of F?
RECURSIVE MadeFrom(_, _, _, _, _)
MadeFrom(G, F, ps, k, pos) ==
  IF k > Len(ps) THEN G.len = W(pos)
  ELSE LET p == ps[k] IN
       /\ IF p.raw THEN SameRange(G, W(pos), F, p.o, p.n) ELSE FBytes(G, W(pos), p.n) = p.b
       /\ MadeFrom(G, F, ps, k + 1, pos + p.n)
Made(G, F, ps) == MadeFrom(G, F, ps, 1, 0)
BytesOf(F, ps) == FoldLeft(LAMBDA a, p : a \o (IF p.raw THEN FBytes(F, p.o, p.n) ELSE p.b), <<>>, ps)

\* -------------------------------------------------------------------- edit
\* o: [drop: set of type texts, time: <<>> or <<W64>>]
Timed(v, o) ==
  IF o.time = <<>> THEN v
  ELSE IF v.FullBox.Version = Z8 THEN [v EXCEPT !.BaseMediaDecodeTimeV0 = Low32(o.time[1])]
  ELSE [v EXCEPT !.BaseMediaDecodeTimeV1 = o.time[1]]

EdOk(ps) == [st |-> "ok", ps |-> ps]
EdErr == [st |-> "err", ps |-> <<>>]
RECURSIVE EdLevel(_, _, _, _)
RECURSIVE EdBox(_, _, _)
EdLevel(F, L, o, acc) ==
  LET a == Adv(F, L) IN
  IF a.a = "end" THEN (IF a.st = "ok" THEN EdOk(acc) ELSE EdErr)
  ELSE LET x == EdBox(F, BoxFrame(a.bi, a.ctx, L.path, <<>>), o)
       IN  IF x.st # "ok" THEN x ELSE EdLevel(F, After(L, a.bi, a.ctx, 0), o, acc \o x.ps)
EdBox(F, B, o) ==
  LET bi == B.bi
      def == ResolveX(bi.type, B.ctx, Reg)
  IN  IF TypeText(bi.type) \in o.drop THEN EdOk(<<>>)
      ELSE IF def = NoDef \/ bi.type = t_mdat
      THEN (IF Whole(F, bi) THEN EdOk(<<Raw(bi.off, N(bi.size))>>) ELSE EdErr)
      ELSE LET d == PayloadOf(F, bi, B.ctx, Reg) IN
           IF d.st # "ok" THEN EdErr
           ELSE LET e == Encode(def.layout, IF bi.type = t_tfdt THEN Timed(d.v, o) ELSE d.v, B.ctx)
                    p == Open(F, B, <<>>)
                    kids == EdLevel(F, p.L, o, <<>>)
                IN  IF e.st # "ok" THEN EdErr
                    ELSE IF p.st # "ok" \/ kids.st # "ok" THEN EdErr
                    ELSE LET h == IF HdrForm(bi) = "large" THEN 16 ELSE 8
                             new == [bi EXCEPT !.hdr = h, !.size = W(h + Len(e.b) + Total(kids.ps))]
                         IN  EdOk(<<Lit(HdrBytes(new) \o e.b)>> \o kids.ps)
Edited(F, o) == EdLevel(F, RootLevel(<<>>), o, <<>>)

\* ----------------------------------------------------------------- extract
\* Boxes of these types hold no other boxes; a large one need not be looked into.
Childless == { <<101,109,115,103>>, <<101,115,100,115>>, <<102,116,121,112>>, <<112,115,115,104>>, <<99,116,116,115>>,
               <<99,111,54,52>>, <<101,108,115,116>>, <<115,98,103,112>>, <<115,100,116,112>>, <<115,116,99,111>>,
               <<115,116,115,99>>, <<115,116,116,115>>, <<115,116,115,115>>, <<115,116,115,122>>, <<116,102,114,97>>,
               <<116,114,117,110>> }
\* alternatives: every = the large ones are looked into all the same;
\* vg = which error counts where the library may report either
IsVague(F, B) == VagueErr(ResolveX(B.bi.type, B.ctx, Reg), F, PayOff(B.bi), PaySize(B.bi))
Seen(F, B, st, vg) == IF st \in {"err", "unsup"} /\ IsVague(F, B) THEN (IF vg THEN "unsup" ELSE "err") ELSE st
RECURSIVE XtLevel(_, _, _, _, _)
RECURSIVE XtBox(_, _, _, _, _)
XtLevel(F, L, t, x, acc) ==
  LET a == Adv(F, L) IN
  IF a.a = "end" THEN [st |-> IF a.st # "ok" /\ a.vague THEN (IF x.vg THEN "unsup" ELSE "err") ELSE a.st, ps |-> acc]
  ELSE LET y == XtBox(F, BoxFrame(a.bi, a.ctx, L.path, <<>>), t, x, acc)
       IN  IF y.st # "ok" THEN y ELSE XtLevel(F, After(L, a.bi, a.ctx, 0), t, x, y.ps)
XtBox(F, B, t, x, acc) ==
  LET bi == B.bi
      acc1 == IF bi.type = t THEN Append(acc, Raw(bi.off, N(bi.size))) ELSE acc
  IN  IF bi.type = t /\ ~Whole(F, bi) THEN [st |-> "err", ps |-> acc]
      ELSE IF ResolveX(bi.type, B.ctx, Reg) = NoDef THEN [st |-> "ok", ps |-> acc1]
      ELSE IF ~x.every /\ bi.type \in Childless /\ Le(W(256), bi.size) THEN [st |-> "ok", ps |-> acc1]
      ELSE LET p == Open(F, B, <<>>)
               st == Seen(F, B, p.st, x.vg)
           IN  IF st = "ok" THEN LET y == XtLevel(F, p.L, t, x, acc1) IN [y EXCEPT !.st = IF @ = "unsup" THEN "ok" ELSE @]
               ELSE [st |-> IF st = "unsup" THEN "ok" ELSE "err", ps |-> acc1]
Extracted(F, t, x) == XtLevel(F, RootLevel(<<>>), t, x, <<>>)

\* -------------------------------------------------------------------- dump
Say(s) == T(s)
HintOpen == <<40>> \o T("use") \o <<32, 34, 45>> \o T("full") \o Sp               \* (use "-full
HintEnd == <<34, 32>> \o T("to") \o Sp \o T("show") \o Sp \o T("all") \o <<41>>  \* " to show all)
Hint(t) == HintOpen \o TypeText(t) \o HintEnd
DataEq == Sp \o T("Data") \o <<61>>
Dots == <<46, 46, 46>>
Unsupported(what) == Sp \o <<40>> \o T("unsupported") \o Sp \o T("box") \o Sp \o T(what) \o <<41>>
Num(v, o) == IF o.hex THEN HexU(v) ELSE DecU(v)
Width == 180

\* the beginning of the line of box B
Head0(F, B, o) ==
  Rep(<<32, 32>>, Len(B.path) - 1) \o <<91>> \o TypeText(B.bi.type) \o <<93>>
  \o (IF ResolveX(B.bi.type, B.ctx, Reg) = NoDef THEN Unsupported("type") ELSE <<>>)
  \o (IF o.offset THEN Sp \o T("Offset") \o <<61>> \o Num(B.bi.off, o) ELSE <<>>)
  \o Sp \o T("Size") \o <<61>> \o Num(B.bi.size, o)
HexList(b) == <<91>> \o FoldLeft(LAMBDA a, k : a \o (IF k = 1 THEN <<>> ELSE Sp) \o <<48, 120>> \o Hex2(b[k]), <<>>, [k \in 1..Len(b) |-> k]) \o <<93>>

\* the texts a box value may have (the second one: known finding item-flags)
TextsOf(layout, v, ctx) ==
  <<TextOf(layout, v, ctx, <<>>)>> \o
  (IF layout = "Item" THEN <<TextOf(layout, [v EXCEPT !.Flags = <<0, 0, 0>>], ctx, <<>>)>> ELSE <<>>)
Open256(t) == \E k \in DOMAIN t : t[k] > 255

\* lines: a sequence of sequences of alternatives
RECURSIVE DuLevel(_, _, _, _)
RECURSIVE DuBox(_, _, _, _)
DuLevel(F, L, o, acc) ==
  LET a == Adv(F, L) IN
  IF a.a = "end" THEN [st |-> a.st, ls |-> acc]
  ELSE LET y == DuBox(F, BoxFrame(a.bi, a.ctx, L.path, <<>>), o, acc)
       IN  IF y.st # "ok" THEN y ELSE DuLevel(F, After(L, a.bi, a.ctx, 0), o, y.ls)
DuBox(F, B, o, acc) ==
  LET bi == B.bi
      def == ResolveX(bi.type, B.ctx, Reg)
      named == TypeText(bi.type) \in o.full
      full == named \/ o.all
      h == Head0(F, B, o)
      Line(alts) == [st |-> "ok", ls |-> Append(acc, alts)]
      Opaque(x) ==       \* a box whose payload has no text
        IF ~full THEN Line(<<x \o DataEq \o <<91>> \o Dots \o <<93, 32>> \o Hint(bi.type)>>)
        ELSE IF Whole(F, bi) THEN Line(<<x \o DataEq \o HexList(FBytes(F, PayOff(bi), N(PaySize(bi))))>>)
        ELSE [st |-> "err", ls |-> acc]
  IN  IF ~named /\ bi.type \in {t_mdat, t_fre, t_skip}
      THEN Line(<<h \o DataEq \o <<91>> \o Dots \o <<93, 32>> \o Hint(bi.type)>>)
      ELSE IF def = NoDef THEN Opaque(h)
      ELSE IF ~full /\ bi.type \in Childless /\ Le(W(64), PaySize(bi)) THEN Line(<<h \o Sp \o Dots \o Sp \o Hint(bi.type)>>)
      ELSE LET d == PayloadOf(F, bi, B.ctx, Reg)
               st == Seen(F, B, d.st, o.vg)
           IN  IF st = "unsup" THEN Opaque(h \o Unsupported("version"))
               ELSE IF st # "ok" THEN [st |-> "err", ls |-> acc]
               ELSE LET ts == TextsOf(def.layout, d.v, B.ctx)
                        cut == h \o Sp \o Dots \o Sp \o Hint(bi.type)
                        shown(t) == IF t = <<>> THEN h ELSE h \o Sp \o t
                        alts(t) == IF full THEN <<shown(t)>>
                                   ELSE IF Open256(t) THEN <<shown(t), cut>>
                                   ELSE IF Len(h) + Len(t) + 2 > Width THEN <<cut>> ELSE <<shown(t)>>
                        acc1 == Append(acc, FoldLeft(LAMBDA a, t : a \o alts(t), <<>>, ts))
                        p == Open(F, B, <<>>)
                    IN  IF p.st # "ok" THEN [st |-> "err", ls |-> acc1]
                        ELSE DuLevel(F, p.L, o, acc1)
Dumped(F, o) == DuLevel(F, RootLevel(<<>>), o, <<>>)
LineIs(t, alts) == \E k \in DOMAIN alts : Matches(t, alts[k])

\* ---------------------------------------------------------------- psshdump
B64Code(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
RECURSIVE Base64From(_, _, _)
Base64From(b, k, acc) ==
  LET left == Len(b) - k + 1
      x == b[k]
      y == IF left > 1 THEN b[k + 1] ELSE 0
      z == IF left > 2 THEN b[k + 2] ELSE 0
  IN  IF left <= 0 THEN acc
      ELSE Base64From(b, k + 3, acc \o <<B64Code(x \div 4), B64Code((x % 4) * 16 + y \div 16)>>
             \o (IF left > 1 THEN <<B64Code((y % 16) * 4 + z \div 64)>> ELSE <<61>>)
             \o (IF left > 2 THEN <<B64Code(z % 64)>> ELSE <<61>>))
Base64(b) == IF b = <<>> THEN <<>> ELSE Base64From(b, 1, <<>>)

Entry(key, text) == Sp \o Sp \o T(key) \o <<58, 32>> \o text
PsshLines(F, bi, v, k) ==
  << DecN10(k) \o <<58>>,
     Entry("offset", DecU(bi.off)),
     Entry("size", DecU(bi.size)),
     Entry("version", DecU(v.FullBox.Version)),
     Entry("flags", <<48, 120>> \o Hex2(v.FullBox.Flags[1]) \o Hex2(v.FullBox.Flags[2]) \o Hex2(v.FullBox.Flags[3])),
     Entry("systemId", Uuid(v.SystemID)),
     Entry("dataSize", DecU(v.DataSize)),
     Entry("base64", Quote \o Base64(FBytes(F, bi.off, N(bi.size))) \o Quote),
     <<>> >>
PsshDump(F) ==
  LET e == Extraction(F, <<>>, << <<t_moov, t_pssh>>, <<t_moof, t_pssh>> >>)
      ds == [k \in DOMAIN e.bs |-> PayloadOf(F, e.bs[k].bi, e.bs[k].ctx, Reg)]
  IN  IF e.st # "ok" \/ (\E k \in DOMAIN ds : ds[k].st # "ok") \/ (\E k \in DOMAIN e.bs : ~Whole(F, e.bs[k].bi))
      THEN [st |-> "err", ls |-> <<>>]
      ELSE [st |-> "ok", ls |-> FoldLeft(LAMBDA a, k : a \o PsshLines(F, e.bs[k].bi, ds[k].v, k - 1), <<>>, [k \in 1..Len(e.bs) |-> k])]
=============================================================================
