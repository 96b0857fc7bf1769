-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Files, box headers, contexts and payloads inside files.                 *)
(*                                                                         *)
(* A file is [len, segs]: its length (W64) and the byte runs in it,        *)
(* [o |-> W64, b |-> bytes]; every other byte is zero.  A small file has   *)
(* one run, a file of many gigabytes a few.                                *)
(***************************************************************************)
EXTENDS Codec

FileOf(b) == [len |-> W(Len(b)), segs |-> <<[o |-> Z8, b |-> b]>>]

\* bytes off .. off+n-1 of F, as far as they exist; runs are disjoint and in order
Zeros(n) == [k \in 1..n |-> 0]
RECURSIVE SegBytes(_, _, _, _)
SegBytes(segs, k, off, n) ==
  IF n = 0 THEN <<>>
  ELSE IF k > Len(segs) THEN Zeros(n)
  ELSE LET s == segs[k] IN
       IF Lt(off, s.o)
       THEN LET d == N(Sub(s.o, off))  g == IF d < n THEN d ELSE n
            IN  Zeros(g) \o SegBytes(segs, k, AddN(off, g), n - g)
       ELSE LET d == N(Sub(off, s.o)) IN
            IF d >= Len(s.b) THEN SegBytes(segs, k + 1, off, n)
            ELSE LET g == IF Len(s.b) - d < n THEN Len(s.b) - d ELSE n
                 IN  SubSeq(s.b, d + 1, d + g) \o SegBytes(segs, k + 1, AddN(off, g), n - g)

FBytes(F, off, n) ==
  IF Le(F.len, off) THEN <<>>
  ELSE LET rest == N(Sub(F.len, off))
           m    == IF n < rest THEN n ELSE rest
           s1   == F.segs[1]
       IN  IF Len(F.segs) = 1 /\ s1.o = Z8 /\ F.len = W(Len(s1.b))
           THEN SubSeq(s1.b, N(off) + 1, N(off) + m)
           ELSE SegBytes(F.segs, 1, off, m)

MaxInt64 == <<127,255,255,255,255,255,255,255>>

\* ----------------------------------------------------------------- headers
\* result: st in "ok", "eof" (the header is cut short), "err"; bi = the box
NoBox == [off |-> Z8, size |-> Z8, hdr |-> 0, type |-> <<0,0,0,0>>, ext |-> FALSE]
ReadHdr(F, pos) ==
  LET h == FBytes(F, pos, 16) IN
  IF Len(h) < 8 THEN [st |-> "eof", bi |-> NoBox]
  ELSE LET s32 == SubSeq(h, 1, 4)
           ty  == SubSeq(h, 5, 8)
       IN  IF s32 = <<0,0,0,1>> /\ Len(h) < 16 THEN [st |-> "eof", bi |-> NoBox]
           ELSE LET ext  == s32 = <<0,0,0,0>>
                    hdr  == IF s32 = <<0,0,0,1>> THEN 16 ELSE 8
                    size == IF ext THEN Sub(F.len, pos)
                            ELSE IF hdr = 16 THEN SubSeq(h, 9, 16) ELSE FromBytes(s32)
                    bi   == [off |-> pos, size |-> size, hdr |-> hdr, type |-> ty, ext |-> ext]
                IN  IF Lt(size, W(hdr)) \/ Lt(Sub(MaxInt64, pos), size)
                    THEN [st |-> "err", bi |-> NoBox]
                    ELSE [st |-> "ok", bi |-> bi]

\* the header written for a description, and the description returned
U32Max == <<0,0,0,0,255,255,255,255>>
HdrForm(bi) == IF bi.ext THEN "eof"
               ELSE IF Le(bi.size, U32Max) /\ bi.hdr # 16 THEN "small" ELSE "large"
HdrBytes(bi) ==
  CASE HdrForm(bi) = "eof"   -> <<0,0,0,0>> \o bi.type
    [] HdrForm(bi) = "small" -> SubSeq(bi.size, 5, 8) \o bi.type
    [] OTHER                 -> <<0,0,0,1>> \o bi.type \o bi.size
Written(bi, pos) ==
  LET h == IF HdrForm(bi) = "large" THEN 16 ELSE 8
  IN  [off |-> pos, size |-> Add(Sub(bi.size, W(bi.hdr)), W(h)), hdr |-> h, type |-> bi.type, ext |-> bi.ext]

PayOff(bi) == AddN(bi.off, bi.hdr)
PaySize(bi) == Sub(bi.size, W(bi.hdr))
EndOff(bi) == Add(bi.off, bi.size)

\* ---------------------------------------------------------------- payloads
\* Decoding a payload of `size` bytes of which only some may exist in the file:
\* what is missing is read as zeros, and whoever needed one of them fails.
Pad == 64
MaxPay == 200000
Window == 3000      \* of a payload larger than that (a container, or nothing that is decoded)
DecodeAt(def, F, off, size, ctx) ==
  LET avail == FBytes(F, off, IF IsBig(size) \/ N(size) > MaxPay THEN Window ELSE N(size))
      have  == Len(avail)
      miss  == IF IsBig(size) THEN Big ELSE N(size) - have
      p     == IF miss > 0 THEN avail \o [i \in 1..(IF miss < Pad THEN miss ELSE Pad) |-> 0] ELSE avail
      d     == Decode(def, p, ctx)
  IN  IF size[1] >= 32 THEN DErr                  \* more than 2^64 bits
      ELSE IF def.layout = "Meta" /\ have < 4 /\ miss > 0 /\ Len(p) >= 4 THEN DErr
      ELSE IF d.st = "ok" /\ d.n > have THEN DErr ELSE d

\* may the implementation report either error class?
VagueErr(def, F, off, size) ==
  LET avail == Len(FBytes(F, off, 4)) IN
  def # NoDef /\ FirstIsFull(def.layout) /\ (avail < 4 \/ Lt(size, W(4)))

PayloadOf(F, bi, ctx, reg) ==
  LET def == ResolveX(bi.type, ctx, reg)
  IN  IF def = NoDef THEN [st |-> "notfound", n |-> 0, v |-> <<>>]
      ELSE DecodeAt(def, F, PayOff(bi), PaySize(bi), ctx)

\* does an observed status agree with the specified one?
StAgrees(F, bi, ctx, reg, spec, seen) ==
  \/ seen = spec
  \/ /\ {seen, spec} = {"err", "unsup"}
     /\ VagueErr(ResolveX(bi.type, ctx, reg), F, PayOff(bi), PaySize(bi))

\* ----------------------------------------------------------------- contexts
T_ftyp == <<102,116,121,112>>
T_keys == <<107,101,121,115>>
T_wave == <<119,97,118,101>>
T_ilst == <<105,108,115,116>>
T_udta == <<117,100,116,97>>
T_free == <<45,45,45,45>>       \* "----"
T_any  == <<0,0,0,0>>
BrandQT == <<113,116,32,32>>

ChildCtx(type, ctx) ==
  CASE type = T_wave -> [ctx EXCEPT !.wave = TRUE]
    [] type = T_ilst -> [ctx EXCEPT !.ilst = TRUE]
    [] ctx.ilst /\ ~ctx.ilstmeta /\ type \in IlstItemTypes ->
         [ctx EXCEPT !.ilstmeta = TRUE, !.ilstfree = @ \/ type = T_free]
    [] type = T_udta -> [ctx EXCEPT !.udta = TRUE]
    [] OTHER -> ctx

\* what a box's own payload adds to its context when it is reached:
\* a top-level ftyp naming the QuickTime brand, the number of keys.
\* st # "ok": the box cannot be visited at all
OwnCtx(F, bi, ctx, top, reg) ==
  IF top /\ bi.type = T_ftyp
  THEN LET d == DecodeAt([layout |-> "Ftyp", versions |-> {}], F, PayOff(bi), PaySize(bi), ctx)
       IN  IF d.st # "ok" THEN [st |-> d.st, ctx |-> ctx]
           ELSE [st |-> "ok", ctx |-> IF \E i \in DOMAIN d.v.CompatibleBrands :
                                            d.v.CompatibleBrands[i].CompatibleBrand = BrandQT
                                      THEN [ctx EXCEPT !.qt = TRUE] ELSE ctx]
  ELSE IF bi.type = T_keys
  THEN LET d == DecodeAt(Resolve(T_keys, ctx), F, PayOff(bi), PaySize(bi), ctx)
       IN  IF d.st # "ok" THEN [st |-> d.st, ctx |-> ctx]
           ELSE [st |-> "ok", ctx |-> [ctx EXCEPT !.keys = N(d.v.EntryCount)]]
  ELSE [st |-> "ok", ctx |-> ctx]
=============================================================================
