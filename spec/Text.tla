-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The text of a box value: which fields are listed, in which order and in *)
(* which format.  A text is a sequence of bytes; where the specification   *)
(* leaves open whether a character is printable (Unicode assigns new ones  *)
(* every year) the element 256 + code point stands for either the          *)
(* character or a dot.                                                     *)
(***************************************************************************)
EXTENDS Codec

Letters == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_"
CodeAt(i) == IF i <= 10 THEN 47 + i ELSE IF i <= 36 THEN 54 + i ELSE IF i <= 62 THEN 60 + i ELSE 95
CodeOf == [ch \in {SubSeq(Letters, i, i) : i \in 1..63} |->
             CodeAt(CHOOSE i \in 1..63 : SubSeq(Letters, i, i) = ch)]
T(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]] \o <<>>
Names == UNION {{Layout[s][i].n : i \in DOMAIN Layout[s]} : s \in DOMAIN Layout}
NameText == [n \in Names |-> T(n)]
Quote == <<34>>
Sp == <<32>>
NL == <<10>>

\* ------------------------------------------------------------------ numbers
RECURSIVE DecN10(_)
DecN10(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecN10(n \div 10), 48 + (n % 10))
RECURSIVE Div10(_, _, _, _)
Div10(v, k, rem, acc) ==
  IF k > 8 THEN [q |-> acc, r |-> rem]
  ELSE LET x == rem * 256 + v[k] IN Div10(v, k + 1, x % 10, Append(acc, x \div 10))
RECURSIVE DecU(_)
DecU(v) == IF ~IsBig(v) THEN DecN10(N(v))
           ELSE LET d == Div10(v, 1, 0, <<>>) IN Append(DecU(d.q), 48 + d.r)
DecI(v) == IF IsNeg(v) THEN <<45>> \o DecU(Neg(v)) ELSE DecU(v)

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex2(b) == <<HexDigit(b \div 16), HexDigit(b % 16)>>
HexAll(v) == Hex2(v[1]) \o Hex2(v[2]) \o Hex2(v[3]) \o Hex2(v[4]) \o Hex2(v[5]) \o Hex2(v[6]) \o Hex2(v[7]) \o Hex2(v[8])
HexU(v) ==
  LET h == HexAll(v)
      k == SelectInSeq(h, LAMBDA x : x # 48)
  IN  <<48, 120>> \o (IF k = 0 THEN <<48>> ELSE SubSeq(h, k, 16))
HexI(v) == IF IsNeg(v) THEN <<45>> \o HexU(Neg(v)) ELSE HexU(v)

\* n / d rounded to the nearest integer, ties to the even one
HalfEven(n, d) ==
  LET q == n \div d
      r == n % d
  IN  IF 2 * r > d \/ (2 * r = d /\ q % 2 = 1) THEN q + 1 ELSE q
RECURSIVE Digits(_, _)
Digits(n, k) == IF k = 0 THEN <<>> ELSE Append(Digits(n \div 10, k - 1), 48 + (n % 10))

\* 16.16 fixed point: integers without decimals, everything else with five
Frac16(v) == v[7] * 256 + v[8]
FixU1616(v) ==
  LET ip == v[5] * 256 + v[6]
  IN  DecN10(ip) \o (IF Frac16(v) = 0 THEN <<>> ELSE <<46>> \o Digits(HalfEven(Frac16(v) * 3125, 2048), 5))
FixS1616(v) == LET x == SExt(v, 32) IN IF IsNeg(x) THEN <<45>> \o FixU1616(Neg(x)) ELSE FixU1616(x)
\* 8.8 fixed point, three decimals
FixU88(v) == DecN10(v[7]) \o (IF v[8] = 0 THEN <<>> ELSE <<46>> \o Digits(HalfEven(v[8] * 125, 32), 3))
FixS88(v) == LET x == SExt(v, 16) IN IF IsNeg(x) THEN <<45>> \o FixU88(Neg(x)) ELSE FixU88(x)

\* --------------------------------------------------------------- characters
In(x, a, b) == a <= x /\ x <= b
\* printable: "yes", "no" or "open" (left to the Unicode tables)
Graphic(cp) ==
  IF cp < 256 THEN (IF In(cp, 32, 126) \/ (cp >= 160 /\ cp # 173) THEN "yes" ELSE "no")
  ELSE IF In(cp, 1040, 1103) \/ In(cp, 12353, 12438) \/ In(cp, 19968, 40869)
          \/ In(cp, 128512, 128591) \/ cp = 65533 THEN "yes"
  ELSE IF In(cp, 8203, 8207) \/ In(cp, 8232, 8233) \/ In(cp, 57344, 63743) THEN "no"
  ELSE "open"
Utf8(cp) ==
  IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
  ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
Replacement == <<239, 191, 189>>

\* the character at position i: [n bytes, cp]; n = 0: not UTF-8
CharAt(s, i) ==
  LET b  == s[i]
      C(k) == IF i + k <= Len(s) /\ In(s[i + k], 128, 191) THEN s[i + k] - 128 ELSE -1
      bad == [n |-> 0, cp |-> 0]
  IN  IF b < 128 THEN [n |-> 1, cp |-> b]
      ELSE IF In(b, 194, 223) /\ C(1) >= 0 THEN [n |-> 2, cp |-> (b - 192) * 64 + C(1)]
      ELSE IF In(b, 224, 239) /\ C(1) >= 0 /\ C(2) >= 0
           THEN LET cp == (b - 224) * 4096 + C(1) * 64 + C(2)
                IN  IF cp >= 2048 /\ ~In(cp, 55296, 57343) THEN [n |-> 3, cp |-> cp] ELSE bad
      ELSE IF In(b, 240, 244) /\ C(1) >= 0 /\ C(2) >= 0 /\ C(3) >= 0
           THEN LET cp == (b - 240) * 262144 + C(1) * 4096 + C(2) * 64 + C(3)
                IN  IF cp >= 65536 /\ cp <= 1114111 THEN [n |-> 4, cp |-> cp] ELSE bad
      ELSE bad
Shown(c) ==
  IF c.n = 0 THEN Replacement
  ELSE LET g == Graphic(c.cp)
       IN  IF g = "yes" THEN Utf8(c.cp) ELSE IF g = "no" THEN <<46>> ELSE <<256 + c.cp>>
RECURSIVE EscapeFrom(_, _, _)
EscapeFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == CharAt(s, i) IN EscapeFrom(s, IF c.n = 0 THEN i + 1 ELSE i + c.n, acc \o Shown(c))
Escape(s) == IF \A i \in DOMAIN s : In(s[i], 32, 126) THEN s ELSE EscapeFrom(s, 1, <<>>)
Quoted(s) == Quote \o Escape(s) \o Quote

\* a text t is one of those described by e
RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(t, e, i, j) ==
  IF j > Len(e) THEN i > Len(t)
  ELSE IF i > Len(t) THEN FALSE
  ELSE IF e[j] < 256 THEN t[i] = e[j] /\ MatchFrom(t, e, i + 1, j + 1)
  ELSE LET u == Utf8(e[j] - 256)
       IN  \/ t[i] = 46 /\ MatchFrom(t, e, i + 1, j + 1)
           \/ i + Len(u) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(u) - 1) = u /\ MatchFrom(t, e, i + Len(u), j + 1)
Matches(t, e) == t = e \/ ((\E j \in DOMAIN e : e[j] > 255) /\ MatchFrom(t, e, 1, 1))

\* ------------------------------------------------------ fields with a format
\* of their own: <<text>>, or <<>> when the general rules apply
DataTypeName(v) ==
  CASE v = W(0) -> <<T("BINARY")>> [] v = W(1) -> <<T("UTF8")>> [] v = W(2) -> <<T("UTF16")>>
    [] v = W(3) -> <<T("MAC_STR")>> [] v = W(14) -> <<T("JPEG")>> [] v = W(21) -> <<T("INT")>>
    [] v = W(22) -> <<T("FLOAT32")>> [] v = W(23) -> <<T("FLOAT64")>> [] OTHER -> <<>>
TagName(v) ==
  CASE v[8] = 3 -> <<T("ESDescr")>> [] v[8] = 4 -> <<T("DecoderConfigDescr")>>
    [] v[8] = 5 -> <<T("DecSpecificInfo")>> [] v[8] = 6 -> <<T("SLConfigDescr")>> [] OTHER -> <<>>
Uuid(b) == FoldLeft(LAMBDA a, i : a \o Hex2(b[i]) \o (IF i \in {4, 6, 8, 10} THEN <<45>> ELSE <<>>),
                    <<>>, [i \in 1..Len(b) |-> i])
Counted(vs, ln) == IF ln = UnlLen \/ IsBig(ln) \/ N(ln) >= Len(vs) THEN vs ELSE SubSeq(vs, 1, N(ln))
Joined(ts) == FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN <<>> ELSE <<44, 32>>) \o ts[i], <<>>, [i \in 1..Len(ts) |-> i])

Own(s, f, rec, root, ctx) ==
  CASE s = "Mvhd" /\ f.n = "Rate" -> <<FixS1616(rec.Rate)>>
    [] s = "Tkhd" /\ f.n \in {"Width", "Height"} -> <<FixU1616(rec[f.n])>>
    [] s = "Smhd" /\ f.n = "Balance" -> <<FixS88(rec.Balance)>>
    [] s = "AudioSampleEntry" /\ f.n = "SampleRate" -> <<FixU1616(rec.SampleRate)>>
    [] s = "VisualSampleEntry" /\ f.n = "Compressorname" ->
         IF rec.Compressorname[1] > 31 THEN <<>>
         ELSE <<Quoted(SubSeq(rec.Compressorname, 2, rec.Compressorname[1] + 1))>>
    [] s = "Descriptor" /\ f.n = "Tag" -> TagName(rec.Tag)
    [] s = "Data" /\ f.n = "DataType" -> DataTypeName(rec.DataType)
    [] s = "Data" /\ f.n = "Data" /\ rec.DataType = W(1) -> <<Quoted(rec.Data)>>
    [] s = "StringData" /\ f.n = "Data" -> <<Quoted(rec.Data)>>
    [] s = "Item" /\ f.n = "ItemName" -> <<Quoted(rec.ItemName)>>
    [] s = "Key" /\ f.n = "KeyNamespace" -> <<Quoted(rec.KeyNamespace)>>
    [] s = "Key" /\ f.n = "KeyValue" -> <<Quoted(Counted(rec.KeyValue, LenOf(s, f, rec, root, ctx)))>>
    [] s = "Pssh" /\ f.n = "KIDs" ->
         LET ks == Counted(rec.KIDs, LenOf(s, f, rec, root, ctx))
         IN  <<<<91>> \o Joined([i \in 1..Len(ks) |-> Uuid(ks[i].KID)]) \o <<93>>>>
    [] OTHER -> <<>>

\* ------------------------------------------------------------- general rules
Rep(x, n) == FoldLeft(LAMBDA a, i : a \o x, <<>>, [i \in 1..n |-> i])

\* a number; v W64
Number(k, f, v) ==
  CASE k = "int" -> IF "hex" \in f.fl THEN HexI(v) ELSE DecI(v)
    [] "hex" \in f.fl \/ ("dec" \notin f.fl /\ f.w = 8) -> HexU(v)
    [] OTHER -> DecU(v)

RECURSIVE TextStruct(_, _, _, _, _, _, _, _)
\* one value of kind k appended to text a
TextValue(k, f, v, a, root, ctx, ind, depth) ==
  CASE k = "struct" -> TextStruct(f.sub, v, a, root, ctx, ind, depth, "extend" \in f.fl)
    [] k = "bool"   -> a \o (IF v THEN T("true") ELSE T("false"))
    [] k = "str"    -> a \o Quoted(v)
    [] OTHER        -> a \o Number(k, f, v)
TextList(f, vs, a, root, ctx, ind, depth) ==
  LET bytes == f.e = "uint" /\ f.w = 8 IN
  IF bytes /\ "string" \in f.fl THEN a \o Quoted(vs)
  ELSE IF bytes /\ "iso" \in f.fl
  THEN a \o Quote \o [i \in 1..Len(vs) |-> (vs[i] + 96) % 256] \o Quote
  ELSE IF bytes /\ "uuid" \in f.fl /\ f.k = "arr" THEN a \o Uuid(vs)
  ELSE IF bytes
  THEN a \o <<91>> \o Joined([i \in 1..Len(vs) |-> Number(f.e, f, W(vs[i]))]) \o <<93>>
  ELSE FoldLeft(LAMBDA x, i : TextValue(f.e, f, vs[i], IF i = 1 THEN x ELSE x \o <<44, 32>>, root, ctx, ind, depth + 1),
                a \o <<91>>, [i \in 1..Len(vs) |-> i]) \o <<93>>

AfterOpen(a) == a = <<>> \/ a[Len(a)] = 123
TextField(s, f, rec, a, root, ctx, ind, depth) ==
  LET ext == "extend" \in f.fl
      b   == IF ext THEN a
             ELSE (IF ind # <<>> THEN a \o Rep(ind, depth + 1) ELSE IF AfterOpen(a) THEN a ELSE a \o Sp)
                  \o NameText[f.n] \o <<61>>
      own == IF f.txt THEN <<T("own_") \o NameText[f.n] \o T("_") \o DecN10(Len(ind)) \o T("_") \o DecN10(depth + 1)>>
             ELSE Own(s, f, rec, root, ctx)
      v   == rec[f.n]
      c   == IF own # <<>> THEN b \o own[1]
             ELSE IF f.n = "Version" /\ f.k = "uint" /\ f.w = 8 THEN b \o DecU(v)
             ELSE IF f.n = "Flags" THEN LET fl == IF f.k = "arr" THEN v ELSE FlagBytes(root)
                                        IN  b \o <<48, 120>> \o Hex2(fl[1]) \o Hex2(fl[2]) \o Hex2(fl[3])
             ELSE CASE f.k = "ptr"   -> TextValue("struct", f, v[1], b, root, ctx, ind, depth)
                    [] f.k = "arr"   -> TextList(f, v, b, root, ctx, ind, depth)
                    [] f.k = "slice" -> TextList(f, Counted(v, LenOf(s, f, rec, root, ctx)), b, root, ctx, ind, depth)
                    [] OTHER         -> TextValue(f.k, f, v, b, root, ctx, ind, depth)
  IN  IF ~ext /\ ind # <<>> THEN c \o NL ELSE c

TextStruct(s, rec, a, root, ctx, ind, depth0, ext) ==
  LET depth == IF ext THEN depth0 ELSE depth0 + 1
      open  == IF ext THEN a ELSE a \o <<123>> \o (IF ind # <<>> THEN NL ELSE <<>>)
      body  == FoldLeft(LAMBDA x, f :
                   IF ~Active(s, f, rec, root, ctx) \/ "const" \in f.fl \/ "hidden" \in f.fl THEN x
                   ELSE TextField(s, f, rec, x, root, ctx, ind, depth), open, Layout[s])
  IN  IF ext THEN body ELSE body \o (IF ind # <<>> THEN Rep(ind, depth) ELSE <<>>) \o <<125>>

TextF == [q \in Any |-> TextStruct(q[1], q[2], <<>>, q[2], q[3], q[4], 0, TRUE)]
\* the text of value rec of layout s, ind = indentation (empty: one line)
TextOf(s, rec, ctx, ind) == TextF[<<s, rec, ctx, ind>>]
=============================================================================
