-------------------------------- MODULE GenHdr --------------------------------
(***************************************************************************)
(* All combinations of boundary sizes, positions and header forms.  TLC    *)
(* checks on the specification that what is written is read back as it was *)
(* described, and prints the combinations for the driver.                  *)
(***************************************************************************)
EXTENDS Files, Json, IOUtils

P(n) == [k \in 1..8 |-> IF k = 8 - (n \div 8) THEN P2[(n % 8) + 1] ELSE 0]     \* 2^n
Near(v) == {Sub(v, W(1)), v, AddN(v, 1)}
Sizes == {W(k) : k \in 0..18} \cup UNION {Near(P(n)) : n \in {8, 16, 24, 31, 32, 40, 48, 62, 63}}
         \cup {AddN(P(32), 7), AddN(P(32), 8), Sub(P(32), W(8)), Sub(P(32), W(16)), Sub(Z8, W(1)), Sub(Z8, W(8))}
Offs == {W(0), W(1), W(8), W(777), Sub(P(32), W(4)), P(32), AddN(P(40), 5), P(62), Sub(P(63), W(40))}
Types == << <<109,100,97,116>>, <<0,0,0,0>>, <<255,0,169,1>>, <<0,0,0,1>> >>
Hdrs == {0, 8, 16, 24}

SS == SetToSeq(Sizes)
OS == SetToSeq(Offs)
HS == SetToSeq(Hdrs)
Total == Len(SS) * Len(OS) * 8
Case(k) ==
  LET j == k - 1
      s == SS[(j % Len(SS)) + 1]
      j1 == j \div Len(SS)
      o == OS[(j1 % Len(OS)) + 1]
      j2 == j1 \div Len(OS)
      h == HS[(j2 % 4) + 1]
  IN  [off |-> o, bi |-> [off |-> W(99), size |-> s, hdr |-> h, type |-> Types[(((h \div 8) + s[8] + o[8]) % 4) + 1],
                          ext |-> j2 >= 4]]

\* the description written is the description read
Faithful(x) ==
  LET out == Written(x.bi, x.off)
      len == IF x.bi.ext THEN Add(x.off, AddN(out.size, 0)) ELSE AddN(x.off, 64)
      F == [len |-> len, segs |-> <<[o |-> x.off, b |-> HdrBytes(x.bi)]>>]
      h == ReadHdr(F, x.off)
      sane == /\ Le(W(out.hdr), out.size) /\ Le(out.size, Sub(MaxInt64, x.off))
              /\ x.bi.hdr \in {8, 16}
              /\ HdrForm(x.bi) = "small" => x.bi.hdr = 8
              /\ HdrForm(x.bi) = "large" => x.bi.hdr = 16
              /\ HdrForm(x.bi) = "eof" => Le(x.off, len) /\ Le(len, MaxInt64) /\ ~IsNeg(len)
  IN  sane => h.st = "ok" /\ h.bi = out

VARIABLES c, i
Init == c \in 0..7 /\ i = 0
Next == i' = (IF i = 0 THEN c + 1 ELSE i + 8) /\ i' <= Total /\ c' = c
Emit == i = 0 \/ LET x == Case(i) IN
          IF Faithful(x) THEN PrintT("CASE " \o ToJson([i |-> i, off |-> x.off, bi |-> x.bi]))
          ELSE PrintT("SPECBUG " \o ToJson(x))
=============================================================================
