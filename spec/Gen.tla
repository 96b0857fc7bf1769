--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Generation of box values from the layouts: the source of the inputs the *)
(* conformance driver replays into the implementation.                     *)
(*                                                                         *)
(* A value is built field by field in layout order, in the same way a      *)
(* decoder reads it, drawing from a pseudo-random stream (a pair of small  *)
(* congruential generators, because TLC integers have 31 bits), so that    *)
(* counters, lists, optional and version-dependent fields agree.           *)
(*   mode 0: canonical values (Decode(Encode(v)) = v, checked by TLC)      *)
(*   mode 1: integers wider than the field in the file                     *)
(*   mode 2: lists longer or shorter than their counters                   *)
(*   mode 3: canonical, with strings and lists of lengths around the       *)
(*           boundaries of their counters (elements as in mode 0)          *)
(***************************************************************************)
EXTENDS Codec

Seed(k) == << ((k % 200003) * 7919 + 17) % 30269, (k * 104 + 31 + (k \div 251)) % 30307 >>
Nx(r) == << (r[1] * 171) % 30269, (r[2] * 172 + 1) % 30307 >>
Pick(r, m) == (r[1] + r[2] * 13) % m
\* a stream for a numbered sub-part
Sub2(r, i) == << (r[1] * 5 + i * 211 + 3) % 30269, (r[2] * 7 + i * 97 + 5) % 30307 >>
Byte(r, i) == ((r[1] * (i * 37 + 1)) \div 11 + r[2] * (i + 3)) % 256
W8R(r) == <<Byte(r,1), Byte(r,2), Byte(r,3), Byte(r,4), Byte(r,5), Byte(r,6), Byte(r,7), Byte(r,8)>>

AllOnes == <<255,255,255,255,255,255,255,255>>
TopBit(w) == [i \in 1..8 |-> IF i = 8 - ((w - 1) \div 8) THEN P2[((w - 1) % 8) + 1] ELSE 0]

\* an integer as it may come out of a field of w bits
GenRaw(r, w) ==
  CASE Pick(r, 8) = 0 -> Z8
    [] Pick(r, 8) = 1 -> W(1)
    [] Pick(r, 8) = 2 -> Trunc(AllOnes, w)
    [] Pick(r, 8) = 3 -> TopBit(w)
    [] OTHER -> Trunc(W8R(Nx(r)), w)

\* strings: printable, punctuation, control characters, non-ASCII
GenChar(r, i) ==
  LET b == Byte(r, i) IN
  CASE b < 128 -> 65 + (b % 26)
    [] b < 180 -> 32 + (b % 95)
    [] b < 200 -> 1 + (b % 31)
    [] b < 230 -> 128 + (b % 64)
    [] OTHER -> 97
\* a, Zhe, control, hiragana, smiley, U+200B, U+E000, soft hyphen, e acute; parts of UTF-8
StrSamples == <<
  <<97, 208, 150, 1, 227, 129, 130>>, <<240, 159, 152, 128, 98>>, <<226, 128, 139, 238, 128, 128, 99>>,
  <<194, 173, 194, 160, 195, 169>>, <<194, 128, 194, 159, 127, 31>>, <<227, 129, 98, 240, 159, 152>>,
  <<192, 128 + 32, 224, 128, 128 + 32, 237, 160, 129>>, <<239, 191, 189, 244, 144, 128, 129, 255>>,
  <<34, 92, 123, 125, 10, 9, 13, 32>>, <<200, 150, 234, 153, 128>> >>
LongLens == <<15, 16, 31, 32, 63, 127, 128, 254, 255, 256, 257, 300>>
LongLen(r) == LongLens[Pick(Nx(Nx(Nx(r))), Len(LongLens)) + 1]
Longer(mode, r) == mode = 3 /\ Pick(Nx(Nx(r)), 3) # 0
GenStr(r) == IF Pick(Nx(Nx(r)), 4) = 0 THEN StrSamples[Pick(r, Len(StrSamples)) + 1]
             ELSE LET n == Pick(r, 7) IN [i \in 1..n |-> GenChar(Nx(r), i)]
GenStrOf(mode, r) == IF Longer(mode, r) THEN [i \in 1..LongLen(r) |-> 1 + ((GenChar(r, i % 13) + i) % 126)] ELSE GenStr(r)
GenBytes(r, n) == [i \in 1..n |-> Byte(Nx(r), i)]

\* fields that count or measure something: kept small
CountFields == {
  <<"AVCDecoderConfiguration","NumOfSequenceParameterSets">>, <<"AVCDecoderConfiguration","NumOfPictureParameterSets">>,
  <<"AVCDecoderConfiguration","NumOfSequenceParameterSetExt">>, <<"AVCParameterSet","Length">>, <<"HEVCNalu","Length">>,
  <<"HEVCNaluArray","NumNalus">>, <<"HvcC","NumOfNaluArrays">>, <<"Co64","EntryCount">>, <<"Stco","EntryCount">>,
  <<"Ctts","EntryCount">>, <<"Elst","EntryCount">>, <<"Sbgp","EntryCount">>, <<"Stsc","EntryCount">>,
  <<"Stts","EntryCount">>, <<"Keys","EntryCount">>, <<"Saio","EntryCount">>, <<"Saiz","SampleCount">>,
  <<"Stss","EntryCount">>, <<"Stsz","SampleCount">>, <<"Sidx","ReferenceCount">>, <<"Tfra","NumberOfEntry">>,
  <<"Trun","SampleCount">>, <<"Sgpd","EntryCount">>, <<"Descriptor","Size">>, <<"ESDescriptor","URLLength">>,
  <<"Pssh","KIDCount">>, <<"Pssh","DataSize">>, <<"Tenc","DefaultConstantIVSize">>, <<"DOps","OutputChannelCount">>,
  <<"VpcC","CodecInitializationDataSize">> }

OneOf(r, seq) == seq[Pick(r, Len(seq)) + 1]

\* values for controlling fields; <<>> when there is none
Hint(s, n, rec, root, lim, used, def, ctx, mode, w, r) ==
  CASE s = "Sgpd" /\ n = "EntryCount" /\ Ver(root) = 2 /\ rec.GroupingType = FCC_alst ->
         <<W(Pick(r, 2))>>        \* entries without any length: only the last can have options
    [] <<s, n>> \in CountFields -> <<IF Longer(mode, r) THEN Trunc(W(LongLen(r)), w) ELSE W(Pick(r, 4))>>
    [] s = "FullBox" /\ n = "Version" ->
         <<IF def.versions = {} THEN W(Byte(r, 1))
           ELSE LET vs == SetToSeq(def.versions) IN W(OneOf(r, vs))>>
    [] s = "AlternativeStartupEntry" /\ n = "RollCount" ->
         <<W(IF lim < 0 THEN Pick(r, 3) ELSE Pick(r, ((lim - 32) \div 32) + 1))>>
    [] s = "AlternativeStartupEntryL" /\ n = "DescriptionLength" -> <<W(OneOf(r, <<4, 8, 12, 16>>))>>
    [] s = "Sgpd" /\ n = "DefaultLength" ->
         <<IF rec.GroupingType = FCC_alst
           THEN W(OneOf(r, IF Ver(root) = 1 THEN <<0, 4, 8, 12>> ELSE <<4, 8, 12>>))
           ELSE IF Pick(r, 2) = 0 THEN Z8 ELSE W(1 + Pick(Nx(r), 3))>>
    [] s = "Stsz" /\ n = "SampleSize" -> IF Pick(r, 2) = 0 THEN <<Z8>> ELSE <<>>
    [] s = "Saiz" /\ n = "DefaultSampleInfoSize" -> IF Pick(r, 2) = 0 THEN <<Z8>> ELSE <<>>
    [] s = "Key" /\ n = "KeySize" -> <<W(IF Longer(mode, r) THEN 8 + LongLen(r) ELSE OneOf(r, <<8, 9, 12, 15>>))>>
    [] s = "Tenc" /\ n = "DefaultIsProtected" -> <<W(OneOf(r, <<0, 1, 1, 2>>))>>
    [] s = "Tenc" /\ n = "DefaultPerSampleIVSize" -> <<W(OneOf(r, <<0, 0, 8, 16>>))>>
    [] s = "DOps" /\ n = "ChannelMappingFamily" -> <<W(OneOf(r, <<0, 1, 1, 255>>))>>
    [] s = "AudioSampleEntry" /\ n = "EntryVersion" -> <<W(OneOf(r, <<0, 1, 2, 3>>))>>
    [] s = "Descriptor" /\ n = "Tag" -> <<OneOf(r, <<W(3), W(4), W(5), W(6), W(127), SExt(W(255), 8)>>)>>
    [] s = "AVCDecoderConfiguration" /\ n = "Profile" ->
         <<W(OneOf(r, <<100, 110, 122, 144, 66, 77, 88, 244>>))>>
    [] s = "AVCDecoderConfiguration" /\ n = "HighProfileFieldsEnabled" ->
         <<rec.Profile[8] \in HighProfiles /\ Pick(r, 3) # 0>>
    [] s = "Hdlr" /\ n = "PreDefined" -> IF Pick(r, 2) = 0 THEN <<Z8>> ELSE <<>>
    [] OTHER -> <<>>

\* hints for byte arrays
HintBytes(s, n, root, def, r) ==
  CASE s = "FullBox" /\ n = "Flags" ->
         IF def.layout = "Meta" THEN <<<<0, 0, 0>>>>
         ELSE (CASE Pick(r, 6) = 0 -> <<<<0, 0, 0>>>>
                [] Pick(r, 6) = 1 -> <<<<255, 255, 255>>>>
                [] Pick(r, 6) = 2 -> LET k == Pick(Nx(r), 24)
                                     IN  <<SubSeq(TopBit(k + 1), 6, 8)>>
                [] OTHER -> <<GenBytes(r, 3)>>)
    [] s = "Sgpd" /\ n = "GroupingType" ->
         <<OneOf(r, <<FCC_roll, FCC_prol, FCC_alst, FCC_rap, FCC_tele, <<115, 101, 105, 103>>>>)>>
    [] s = "Colr" /\ n = "ColourType" -> <<OneOf(r, <<FCC_nclx, FCC_rICC, FCC_prof, <<110, 99, 108, 99>>>>)>>
    [] (s = "StringData" \/ s = "Data") /\ n = "Data" -> IF Pick(r, 2) = 0 THEN <<GenStr(Nx(r))>> ELSE <<>>
    [] n \in {"MajorBrand", "CompatibleBrand"} ->
         <<OneOf(r, <<<<105,115,111,109>>, <<113,116,32,32>>, <<109,112,52,50>>, GenBytes(r, 4)>>)>>
    [] OTHER -> <<>>

RECURSIVE GenStruct(_, _, _, _, _, _, _)

\* the value of one element / scalar of kind k
GenScalar(k, s, f, sz, rec, root, lim, used, def, ctx, mode, r) ==
  LET h == CASE f.hint = "cnt" -> <<W(Pick(r, 4))>>
             [] f.hint = "true" -> <<TRUE>>
             [] f.hint = "false" -> <<FALSE>>
             [] OTHER -> Hint(s, f.n, rec, root, lim, used, def, ctx, mode, IF "varint" \in f.fl \/ sz = 0 \/ sz > f.w THEN f.w ELSE sz, r) IN
  IF k \in {"uint", "int", "bool"} /\ h # <<>> THEN h[1]
  ELSE
  CASE k = "struct" ->
         GenStruct(f.sub, root, IF sz # 0 /\ sz % 8 = 0 THEN sz ELSE -1, def, ctx, mode, r)
    [] k = "str"  -> GenStrOf(mode, r)
    [] k = "bool" -> Pick(r, 2) = 0
    [] k = "uint" -> LET w == IF "varint" \in f.fl THEN (IF f.w < 28 THEN f.w ELSE 28) ELSE IF mode = 1 \/ sz > f.w THEN f.w ELSE sz
                     IN  GenRaw(r, w)
    [] k = "int"  -> LET w == IF mode = 1 \/ sz > f.w THEN f.w ELSE sz IN SExt(GenRaw(r, w), w)

\* number of elements of a list without a counter
GenCount(s, f, sz, lim, rec, mode, r) ==
  IF lim < 0 /\ Longer(mode, r) THEN LongLen(r)
  ELSE IF s = "AlternativeStartupEntry" /\ f.n = "Opts"
  THEN IF lim < 0 THEN Pick(r, 3) ELSE (lim - 32) \div 32 - N(rec.RollCount)
  ELSE IF f.hb >= 0 /\ lim >= 0 THEN (lim - f.hb) \div sz
  ELSE IF f.e = "uint" /\ f.w = 8 THEN Pick(r, 8) ELSE Pick(r, 4)

\* integers are built bit-exactly in two's complement, 8-bit list elements as naturals
GenField(s, f, rec, root, lim, used, def, ctx, mode, r) ==
  LET sz == SizeOf(s, f, rec, root, ctx) IN
  CASE f.k = "ptr" -> <<GenScalar("struct", s, f, sz, rec, root, lim, used, def, ctx, mode, r)>>
    [] f.k \in {"arr", "slice"} ->
         LET hb == IF f.e = "uint" /\ f.w = 8 THEN HintBytes(s, f.n, root, def, r) ELSE <<>>
             ln == IF f.k = "arr" THEN W(f.cnt) ELSE LenOf(s, f, rec, root, ctx)
             n0 == IF ln = UnlLen THEN GenCount(s, f, sz, lim, rec, mode, r) ELSE N(ln)
             n  == IF mode = 2 /\ f.k = "slice"
                   THEN LET d == Pick(Nx(Nx(r)), 5)
                        IN  IF d = 0 /\ n0 > 0 THEN n0 - 1 ELSE IF d = 1 THEN n0 + 1 ELSE IF d = 2 THEN n0 + 2 ELSE n0
                   ELSE n0
             below == IF mode = 3 /\ n > 8 THEN 0 ELSE mode      \* long lists of short elements
         IN  IF hb # <<>> /\ mode \in {0, 3} THEN hb[1]
             ELSE IF f.e = "uint" /\ f.w = 8
                  THEN IF sz >= 8 \/ mode = 1 THEN GenBytes(r, n)
                       ELSE [i \in 1..n |-> GenRaw(Sub2(r, i), sz)[8]]
             ELSE [i \in 1..n |-> GenScalar(f.e, s, f, sz, rec, root, lim, used, def, ctx, below, Sub2(r, i))]
    [] OTHER -> GenScalar(f.k, s, f, sz, rec, root, lim, used, def, ctx, mode, r)

GenStruct(s, root0, lim, def, ctx, mode, r0) ==
  LET isRoot == root0 = <<>>
      Step(acc, f) ==
        LET rt == IF isRoot THEN acc.v ELSE root0 IN
        IF ~Active(s, f, acc.v, rt, ctx) THEN [acc EXCEPT !.r = Nx(@)]
        ELSE [v |-> [acc.v EXCEPT ![f.n] = GenField(s, f, acc.v, rt, lim, 0, def, ctx, mode, acc.r)],
              r |-> Nx(Sub2(acc.r, 1))]
  IN  FoldLeft(Step, [v |-> ZeroTab[s], r |-> r0], Layout[s]).v

GenF == [q \in Any |-> GenStruct(q[1].layout, <<>>, -1, q[1], q[2], q[3], q[4])]
GenBox(def, ctx, mode, r) == GenF[<<def, ctx, mode, r>>]
GenValue(def, ctx, mode, k) == GenBox(def, ctx, mode, Nx(Nx(Seed(k))))
=============================================================================
