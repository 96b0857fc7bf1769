------------------------------ MODULE GenCodec ------------------------------
(***************************************************************************)
(* TLC enumerates (registry entry, context, mode, seed), builds a value    *)
(* and its payload from the specification, checks the round-trip theorem   *)
(*      Decode(Encode(v)) = v                                              *)
(* on the specification itself and prints the case for the driver.         *)
(***************************************************************************)
EXTENDS Gen, Json, IOUtils

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
From == Env("GEN_FROM", 0)
Count == Env("GEN_COUNT", 300)
Salt == Env("GEN_SALT", 1)
Modes == Env("GEN_MODES", 3)          \* number of modes generated
Only == Env("GEN_ONLY", -1)           \* this mode alone
UserToo == Env("GEN_USER", 0)         \* 1: only user registrations

\* layouts with sizes, counts or presence that depend on other fields
Intricate == {"Sgpd", "Trun", "Tfra", "Elst", "Pssh", "Saio", "Saiz", "Sidx", "Hdlr", "HvcC", "AVCDecoderConfiguration",
              "Esds", "Tenc", "Emsg", "Tfhd", "Tfdt", "Keys", "Data", "Url", "Urn", "Stsz", "Sbgp", "Ctts", "Meta", "Colr",
              "StringData", "Mehd", "Mvhd", "Cslg", "Trep", "Udta3GppString", "Av1C", "VpcC", "AudioSampleEntry"}
IntricateOnly == Env("GEN_INTRICATE", 0) = 1
Full == IF UserToo = 1 THEN UserRegistry ELSE BuiltinRegistry \o <<R(<<0,0,0,2>>, "Item", {}, "numbered")>>
Reg == IF IntricateOnly THEN SelectSeq(Full, LAMBDA e: e.layout \in Intricate) ELSE Full
NE == Len(Reg)

CtxFor(pred, r) ==
  CASE pred = "ilstItem"      -> [CtxEmpty EXCEPT !.ilst = TRUE, !.keys = Pick(r, 3)]
    [] pred = "numbered"      -> [CtxEmpty EXCEPT !.ilst = TRUE, !.keys = 2 + Pick(r, 3)]
    [] pred = "underIlstMeta" -> [CtxEmpty EXCEPT !.ilst = TRUE, !.ilstmeta = TRUE]
    [] pred = "underIlstFree" -> [CtxEmpty EXCEPT !.ilst = TRUE, !.ilstmeta = TRUE, !.ilstfree = TRUE]
    [] pred = "underUdta"     -> [CtxEmpty EXCEPT !.udta = TRUE]
    [] pred = "qt"            -> [CtxEmpty EXCEPT !.qt = TRUE, !.wave = Pick(r, 2) = 0]
    [] pred = "wave"          -> [CtxEmpty EXCEPT !.wave = TRUE, !.qt = Pick(r, 2) = 0]
    [] OTHER -> OneOf(r, << CtxEmpty, [CtxEmpty EXCEPT !.qt = TRUE],
                            [CtxEmpty EXCEPT !.qt = TRUE, !.wave = TRUE],
                            [CtxEmpty EXCEPT !.wave = TRUE],
                            [CtxEmpty EXCEPT !.udta = TRUE],
                            [CtxEmpty EXCEPT !.qt = TRUE, !.keys = 1] >>)

Case(i) ==
  LET e == Reg[(i % NE) + 1]
      k == i \div NE
      r == Seed(Salt * 31 + i)
      ctx == CtxFor(e.pred, Nx(r))
      def == ResolveX(e.type, ctx, UserRegistry)
      mode == IF Only >= 0 THEN Only ELSE IF RawBox(def.layout) /\ (k % Modes) = 0 THEN 1 ELSE k % Modes
      v == GenValue(def, ctx, mode, Salt * 131 + i)
      en == Encode(def.layout, v, ctx)
      d == IF en.st = "ok" THEN Decode(def, en.b, ctx) ELSE DErr
  IN  [i |-> i, type |-> e.type, ctx |-> ctx, mode |-> mode, layout |-> def.layout, v |-> v,
       est |-> en.st, p |-> en.b,
       thm |-> mode \notin {0, 3} \/ (en.st = "ok" /\ d.st = "ok" /\ d.n = Len(en.b) /\ d.v = v)]

VARIABLES c, i
Init == c \in 0..7 /\ i = -1
Next == /\ i' = (IF i = -1 THEN From + c ELSE i + 8)
        /\ i' < From + Count
        /\ c' = c
Emit == i = -1 \/ Reg[(i % NE) + 1].pred = "never" \/ LET x == Case(i) IN
          IF x.thm THEN PrintT("CASE " \o ToJson(x)) ELSE PrintT("SPECBUG " \o ToJson(x))
=============================================================================
