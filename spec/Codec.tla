------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Meaning of a box layout: how a payload (a sequence of bytes) decodes to *)
(* a value and how a value encodes to a payload.                           *)
(*                                                                         *)
(* Values: integers W64 (two's complement), BOOLEAN, strings and byte      *)
(* lists as sequences of bytes, structures as records, lists as sequences, *)
(* a pointer as <<>> (nil) or <<structure>>.                               *)
(***************************************************************************)
EXTENDS W64, Layouts, UserLayouts, Registry, TLC, SequencesExt

Layout == BuiltinLayout @@ UserLayout

\* --------------------------------------------------------------- zero values
RECURSIVE ZeroStruct(_)
ZeroElem(f) ==
  CASE f.e = "bool"             -> FALSE
    [] f.e = "uint" /\ f.w = 8  -> 0
    [] f.e = "struct"           -> ZeroStruct(f.sub)
    [] f.e = "str"              -> <<>>
    [] OTHER                    -> Z8
ZeroOf(f) ==
  CASE f.k = "uint" \/ f.k = "int" -> Z8
    [] f.k = "bool"   -> FALSE
    [] f.k = "struct" -> ZeroStruct(f.sub)
    [] f.k = "arr"    -> LET z == ZeroElem(f) IN [i \in 1..f.cnt |-> z]
    [] OTHER          -> <<>>       \* str, ptr, slice
Named(fs, n) == fs[CHOOSE i \in DOMAIN fs : fs[i].n = n]
ZeroStruct(s) ==
  LET fs == Layout[s] IN [n \in {fs[i].n : i \in DOMAIN fs} |-> ZeroOf(Named(fs, n))]
ZeroTab == [s \in DOMAIN Layout |-> ZeroStruct(s)]

\* ------------------------------------------------------ version and flags
HasFull(root) == "FullBox" \in DOMAIN root
Ver(root) == IF HasFull(root) THEN root.FullBox.Version[8] ELSE 0
FlagBytes(root) == IF HasFull(root) THEN root.FullBox.Flags ELSE <<0,0,0>>
\* (flags & mask) # 0 for a 24-bit mask
Bit8And(a, b) == \E k \in 1..8 : (a \div P2[k]) % 2 = 1 /\ (b \div P2[k]) % 2 = 1
FlagsMeet(root, mask) ==
  LET f == FlagBytes(root)
  IN  \/ Bit8And(f[1], (mask \div 65536) % 256)
      \/ Bit8And(f[2], (mask \div 256) % 256)
      \/ Bit8And(f[3], mask % 256)

\* ------------------------------------------------------------ dynamic rules
UnlLen == <<0,0,0,0,255,255,255,255>>    \* a count of 2^32-1 means "to the end"

FCC_roll == <<114,111,108,108>>
FCC_prol == <<112,114,111,108>>
FCC_alst == <<97,108,115,116>>
FCC_rap  == <<114,97,112,32>>
FCC_tele == <<116,101,108,101>>
FCC_nclx == <<110,99,108,120>>
FCC_rICC == <<114,73,67,67>>
FCC_prof == <<112,114,111,102>>

\* list length (W64) of field f of structure s; rec: the structure, root: the box
DynLen(s, n, rec, root, ctx) ==
  CASE s = "AudioSampleEntry" /\ n = "QuickTimeData" ->
         IF ~ctx.qt THEN Z8
         ELSE IF ctx.wave THEN UnlLen
         ELSE IF rec.EntryVersion = W(1) THEN W(16)
         ELSE IF rec.EntryVersion = W(2) THEN W(36) ELSE Z8
    [] s = "AVCDecoderConfiguration" /\ n = "SequenceParameterSets" -> rec.NumOfSequenceParameterSets
    [] s = "AVCDecoderConfiguration" /\ n = "PictureParameterSets" -> rec.NumOfPictureParameterSets
    [] s = "AVCDecoderConfiguration" /\ n = "SequenceParameterSetsExt" -> rec.NumOfSequenceParameterSetExt
    [] s \in {"AVCParameterSet", "HEVCNalu"} /\ n = "NALUnit" -> rec.Length
    [] s = "HEVCNaluArray" /\ n = "Nalus" -> rec.NumNalus
    [] s = "HvcC" /\ n = "NaluArrays" -> rec.NumOfNaluArrays
    [] s \in {"Co64", "Stco"} /\ n = "ChunkOffset" -> rec.EntryCount
    [] s \in {"Ctts", "Elst", "Sbgp", "Stsc", "Stts", "Keys"} /\ n = "Entries" -> rec.EntryCount
    [] s = "Saio" -> rec.EntryCount
    [] s = "Saiz" -> rec.SampleCount
    [] s = "Stss" /\ n = "SampleNumber" -> rec.EntryCount
    [] s = "Stsz" /\ n = "EntrySize" -> IF rec.SampleSize = Z8 THEN rec.SampleCount ELSE Z8
    [] s = "Sidx" /\ n = "References" -> rec.ReferenceCount
    [] s = "Tfra" /\ n = "Entries" -> rec.NumberOfEntry
    [] s = "Trun" /\ n = "Entries" -> rec.SampleCount
    [] s = "Sgpd" -> rec.EntryCount
    [] s = "AlternativeStartupEntry" /\ n = "SampleOffset" -> rec.RollCount
    [] s = "Descriptor" /\ n = "Data" -> rec.Size
    [] s = "ESDescriptor" /\ n = "URLString" -> rec.URLLength
    [] s = "Pssh" /\ n = "KIDs" -> rec.KIDCount
    [] s = "Pssh" /\ n = "Data" -> rec.DataSize
    [] s = "Tenc" /\ n = "DefaultConstantIV" -> rec.DefaultConstantIVSize
    [] s = "Key" /\ n = "KeyValue" -> Sub(rec.KeySize, W(8))
    [] s = "DOps" /\ n = "ChannelMapping" -> rec.OutputChannelCount
    [] s = "VpcC" /\ n = "CodecInitializationData" -> rec.CodecInitializationDataSize
    [] OTHER -> Z8

\* file width in bits of field n of structure s (0: none)
Bytes8(v) == IF Lt(v, W(16777216)) THEN N(v) * 8 ELSE 134217728    \* more than any payload has
B1(v) == (v[8] + 1) * 8
DynSize(s, n, rec, root, ctx) ==
  CASE s = "Elst" -> IF Ver(root) = 0 THEN 96 ELSE 160
    [] s = "Tfra" -> (IF Ver(root) = 0 THEN 64 ELSE 128) + B1(rec.LengthSizeOfTrafNum)
                     + B1(rec.LengthSizeOfTrunNum) + B1(rec.LengthSizeOfSampleNum)
    [] s = "TfraEntry" /\ n = "TrafNumber" -> B1(root.LengthSizeOfTrafNum)
    [] s = "TfraEntry" /\ n = "TrunNumber" -> B1(root.LengthSizeOfTrunNum)
    [] s = "TfraEntry" /\ n = "SampleNumber" -> B1(root.LengthSizeOfSampleNum)
    [] s = "Trun" -> (IF FlagsMeet(root, 256) THEN 32 ELSE 0)
                     + (IF FlagsMeet(root, 512) THEN 32 ELSE 0)
                     + (IF FlagsMeet(root, 1024) THEN 32 ELSE 0)
                     + (IF FlagsMeet(root, 2048) THEN 32 ELSE 0)
    [] s = "Sgpd" /\ n = "AlternativeStartupEntries" -> Bytes8(rec.DefaultLength)
    [] s = "AlternativeStartupEntryL" -> Bytes8(rec.DescriptionLength)
    [] OTHER -> 0

HighProfiles == {100, 110, 122, 144}

\* presence of a field whose descriptor says dyn
DynOpt(s, n, rec, root, ctx) ==
  CASE s = "Colr" ->
         IF rec.ColourType = FCC_nclx THEN n \notin {"Profile", "Unknown"}
         ELSE IF rec.ColourType \in {FCC_rICC, FCC_prof} THEN n = "Profile"
         ELSE n = "Unknown"
    [] s = "Saiz" -> rec.DefaultSampleInfoSize = Z8
    [] s = "AudioSampleEntry" ->
         IF n = "QuickTimeData"
         THEN ctx.qt /\ (ctx.wave \/ rec.EntryVersion \in {W(1), W(2)})
         ELSE ~(ctx.qt /\ ctx.wave)
    [] s = "AVCDecoderConfiguration" -> rec.HighProfileFieldsEnabled
    [] s = "Sgpd" ->
         LET noDef == Ver(root) = 1 /\ rec.DefaultLength = Z8
             gt    == rec.GroupingType
         IN  (CASE n = "RollDistances"              -> gt \in {FCC_roll, FCC_prol} /\ ~noDef
               [] n = "RollDistancesL"             -> gt \in {FCC_roll, FCC_prol} /\ noDef
               [] n = "AlternativeStartupEntries"  -> gt = FCC_alst /\ ~noDef
               [] n = "AlternativeStartupEntriesL" -> gt = FCC_alst /\ noDef
               [] n = "VisualRandomAccessEntries"  -> gt = FCC_rap /\ ~noDef
               [] n = "VisualRandomAccessEntriesL" -> gt = FCC_rap /\ noDef
               [] n = "TemporalLevelEntries"       -> gt = FCC_tele /\ ~noDef
               [] n = "TemporalLevelEntriesL"      -> gt = FCC_tele /\ noDef
               [] n = "Unsupported"                -> gt \notin {FCC_roll, FCC_prol, FCC_alst, FCC_rap, FCC_tele})
    [] s = "Descriptor" ->
         LET tag == rec.Tag[8] IN
         (CASE tag = 3 -> n = "ESDescriptor"
            [] tag = 4 -> n = "DecoderConfigDescriptor"
            [] OTHER   -> n = "Data")
    [] s = "ESDescriptor" ->
         (CASE n = "DependsOnESID" -> rec.StreamDependenceFlag
            [] n \in {"URLLength", "URLString"} -> rec.UrlFlag
            [] n = "OCRESID" -> rec.OcrStreamFlag)
    [] s = "Tenc" -> rec.DefaultIsProtected = W(1) /\ rec.DefaultPerSampleIVSize = Z8
    [] s = "DOps" -> rec.ChannelMappingFamily # Z8
    [] OTHER -> FALSE

\* the dynamic rules of a field are those of the structure it is in, if that has rules, else those of the box
Source(f, rec, root) == IF f.own THEN rec ELSE root

Active(s, f, rec, root, ctx) ==
  /\ \/ Ver(root) = 255
     \/ /\ f.ver = NOVER \/ Ver(root) = f.ver
        /\ f.nver = NOVER \/ Ver(root) # f.nver
  /\ f.opt = 0 \/ FlagsMeet(root, f.opt)
  /\ f.nopt = 0 \/ ~FlagsMeet(root, f.nopt)
  /\ \/ ~f.dyn
     \/ IF f.osrc # "" THEN Source(f, rec, root)[f.osrc] # Z8 ELSE DynOpt(s, f.n, rec, root, ctx)

SizeOf(s, f, rec, root, ctx) ==
  IF f.sz # DYN THEN f.sz
  ELSE IF f.ssrc # "" THEN (Source(f, rec, root)[f.ssrc][8] % f.smod) * f.smul + f.sadd
  ELSE DynSize(s, f.n, rec, root, ctx)
LenOf(s, f, rec, root, ctx) ==
  IF f.ln = DYN THEN IF f.lsrc # "" THEN Source(f, rec, root)[f.lsrc] ELSE DynLen(s, f.n, rec, root, ctx)
  ELSE IF f.ln = UNL THEN UnlLen ELSE W(f.ln)

\* ------------------------------------------------------------- reading bits
\* eight bits of payload p starting at bit position b (0-based)
Bits8(p, b) ==
  LET q == (b \div 8) + 1
      r == b % 8
  IN  IF r = 0 THEN p[q]
      ELSE ((p[q] * 256 + (IF q < Len(p) THEN p[q + 1] ELSE 0)) \div P2[9 - r]) % 256
\* w bits at position b as W64
ReadBits(p, b, w) ==
  LET B(k) == LET lo == 8 * (8 - k) IN
              IF lo >= w THEN 0
              ELSE IF w - lo >= 8 THEN Bits8(p, b + w - lo - 8)
              ELSE Bits8(p, b) \div P2[9 - (w - lo)]
  IN  <<B(1),B(2),B(3),B(4),B(5),B(6),B(7),B(8)>>
ReadInt(p, b, w, gow) == LET v == SExt(ReadBits(p, b, w), w) IN SExt(v, gow)
ReadUint(p, b, w, gow) ==
  LET v == IF w > 64 THEN ReadBits(p, b + w - 64, 64) ELSE ReadBits(p, b, w) IN Trunc(v, gow)

\* ------------------------------------------------------------------ decode
\* results: [ok, v, p] with p the next bit position
Fail == [ok |-> FALSE, v |-> <<>>, p |-> 0]

\* zero-terminated string, ending at the end of the payload at the latest;
\* pos byte-aligned or not (a user layout may start a string anywhere)
RECURSIVE CStr(_, _, _, _)
CStr(p, b, lim, acc) ==
  IF b >= lim THEN [ok |-> TRUE, v |-> acc, p |-> b]
  ELSE IF b + 8 > lim THEN Fail
  ELSE LET c == Bits8(p, b) IN
       IF c = 0 THEN [ok |-> TRUE, v |-> acc, p |-> b + 8]
       ELSE CStr(p, b + 8, lim, Append(acc, c))
\* the same on a byte-aligned position, without recursion
FirstZero(p, from, to) ==       \* smallest index in from..to with p[i] = 0, or 0
  SelectInSeq(SubSeq(p, from, to), LAMBDA x : x = 0)
AStr(p, b, lim) ==
  LET i == (b \div 8) + 1
      e == lim \div 8
      z == FirstZero(p, i, e)
  IN  IF z = 0 THEN [ok |-> TRUE, v |-> SubSeq(p, i, e), p |-> e * 8]
      ELSE [ok |-> TRUE, v |-> SubSeq(p, i, i + z - 2), p |-> (i + z - 1) * 8]
Str(p, b, lim) == IF b % 8 = 0 /\ b <= lim THEN AStr(p, b, lim) ELSE CStr(p, b, lim, <<>>)
\* a string that must be terminated (emsg version 1)
ZStr(p, b, lim) ==
  IF b >= lim THEN Fail
  ELSE LET i == (b \div 8) + 1
           z == FirstZero(p, i, lim \div 8)
       IN  IF z = 0 THEN Fail
           ELSE [ok |-> TRUE, v |-> SubSeq(p, i, i + z - 2), p |-> (i + z - 1) * 8]

\* a string that may be preceded by its length instead of being terminated
PStr(f, p, b, lim) ==
  LET size == (lim - b) \div 8 IN
  IF size < 2 THEN Str(p, b, lim)
  ELSE IF b % 8 # 0 THEN Fail
  ELSE LET i == b \div 8 + 1
           n == p[i]
       IN  IF n <= size - 1 /\ (f.hint # "rest0" \/ n = size - 1)
           THEN [ok |-> TRUE, v |-> SubSeq(p, i + 1, i + n), p |-> b + 8 * (n + 1)]
           ELSE Str(p, b, lim)

RECURSIVE Uvar(_, _, _, _)
Uvar(p, b, lim, acc) ==
  IF b + 8 > lim THEN Fail
  ELSE LET c == Bits8(p, b)
           v == Add(MulB(acc, 128, 8, 0), W(c % 128))
       IN  IF c < 128 THEN [ok |-> TRUE, v |-> v, p |-> b + 8] ELSE Uvar(p, b + 8, lim, v)

RECURSIVE DecStruct(_, _, _, _, _, _, _)
RECURSIVE DecUntil(_, _, _, _, _, _, _, _)

\* one element / scalar of kind k at b, width sz
DecScalar(k, f, sz, p, b, lim, root, ctx) ==
  CASE k = "struct" ->
         IF sz # 0 /\ sz % 8 = 0
         THEN IF sz > lim - b THEN Fail
              ELSE \* a sized structure must fill exactly its own size
                   LET r == DecStruct(f.sub, p, b, b + sz, root, FALSE, ctx)
                   IN  IF r.ok /\ r.p = b + sz THEN r ELSE Fail
         ELSE DecStruct(f.sub, p, b, lim, root, FALSE, ctx)
    [] k = "str" -> IF "string_c_p" \in f.fl THEN PStr(f, p, b, lim) ELSE Str(p, b, lim)
    [] k = "uint" /\ "varint" \in f.fl ->
         LET r == Uvar(p, b, lim, Z8) IN IF r.ok THEN [r EXCEPT !.v = Trunc(@, f.w)] ELSE Fail
    [] sz = 0 \/ sz > lim - b -> Fail
    [] k = "uint" -> [ok |-> TRUE, v |-> ReadUint(p, b, sz, f.w), p |-> b + sz]
    [] k = "int"  -> IF "varint" \in f.fl THEN Fail
                     ELSE [ok |-> TRUE, v |-> ReadInt(p, b, sz, f.w), p |-> b + sz]
    [] k = "bool" -> [ok |-> TRUE, v |-> ReadBits(p, b, sz) # Z8, p |-> b + sz]

ElemVal(f, v) == IF f.e = "uint" /\ f.w = 8 THEN v[8] ELSE v

DecElem(f, sz, p, b, lim, root, ctx) ==
  LET r == DecScalar(f.e, f, sz, p, b, lim, root, ctx)
  IN  IF r.ok THEN [r EXCEPT !.v = ElemVal(f, @)] ELSE r

\* n elements
DecN(f, n, sz, p, b, lim, root, ctx) ==
  IF f.e \in {"uint", "int"} /\ sz # 0 /\ "varint" \notin f.fl
  THEN IF n > (lim - b) \div sz THEN Fail
       ELSE [ok |-> TRUE, p |-> b + n * sz,
             v |-> IF f.e = "uint" /\ f.w = 8 /\ sz = 8 /\ b % 8 = 0
                   THEN SubSeq(p, b \div 8 + 1, b \div 8 + n)
                   ELSE [i \in 1..n |-> ElemVal(f,
                           IF f.e = "uint" THEN ReadUint(p, b + (i - 1) * sz, sz, f.w)
                           ELSE ReadInt(p, b + (i - 1) * sz, sz, f.w))]]
  ELSE IF n > 0 /\ sz # 0 /\ n > (lim - b) \div sz THEN Fail
  ELSE LET m == IF n > lim - b + 1 THEN lim - b + 1 ELSE n
           a == FoldLeft(LAMBDA acc, i :
                  IF ~acc.ok THEN acc
                  ELSE LET r == DecElem(f, sz, p, acc.p, lim, root, ctx)
                       IN  IF r.ok THEN [ok |-> TRUE, v |-> Append(acc.v, r.v), p |-> r.p] ELSE Fail,
                [ok |-> TRUE, v |-> <<>>, p |-> b], [i \in 1..m |-> i])
       IN  IF ~a.ok \/ m = n THEN a
           \* more elements than bits: some element had no bits, and so have all that follow
           ELSE LET r == DecElem(f, sz, p, a.p, lim, root, ctx)
                IN  IF r.ok /\ r.p = a.p THEN [a EXCEPT !.v = @ \o [i \in 1..(n - m) |-> r.v]] ELSE Fail

\* elements without a fixed width, to the end of the payload
DecUntil(f, sz, p, b, lim, root, ctx, acc) ==
  IF b >= lim THEN [ok |-> TRUE, v |-> acc, p |-> b]
  ELSE LET r == DecElem(f, sz, p, b, lim, root, ctx)
       IN  IF ~r.ok \/ r.p = b THEN Fail
           ELSE DecUntil(f, sz, p, r.p, lim, root, ctx, Append(acc, r.v))

DecField(s, f, p, b, lim, rec, root, ctx) ==
  LET sz == SizeOf(s, f, rec, root, ctx) IN
  CASE f.k = "ptr" ->
         LET r == DecScalar("struct", f, sz, p, b, lim, root, ctx)
         IN  IF r.ok THEN [r EXCEPT !.v = <<@>>] ELSE r
    [] f.k = "arr" -> DecN(f, f.cnt, sz, p, b, lim, root, ctx)
    [] f.k = "slice" ->
         LET ln == LenOf(s, f, rec, root, ctx) IN
         IF ln = UnlLen
         THEN IF sz # 0
              THEN IF (lim - b) % sz # 0 THEN Fail
                   ELSE DecN(f, (lim - b) \div sz, sz, p, b, lim, root, ctx)
              ELSE IF f.e = "uint" /\ "varint" \notin f.fl /\ b < lim THEN Fail
              ELSE DecUntil(f, sz, p, b, lim, root, ctx, <<>>)
         ELSE IF IsBig(ln) THEN Fail
         ELSE DecN(f, N(ln), sz, p, b, lim, root, ctx)
    [] OTHER -> DecScalar(f.k, f, sz, p, b, lim, root, ctx)

\* fields whose reading is not described by their descriptor alone
\* result as above; special = FALSE: none
Special(s, f, p, b, lim, rec, root, ctx) ==
  CASE s = "AVCDecoderConfiguration" /\ f.n = "HighProfileFieldsEnabled" ->
         [special |-> TRUE, ok |-> TRUE, p |-> b,
          rec |-> [rec EXCEPT !.HighProfileFieldsEnabled =
                     lim - b >= 32 /\ rec.Profile[8] \in HighProfiles]]
    [] s = "Hdlr" /\ f.n = "Name" ->
         LET size == (lim - b) \div 8
             buf  == SubSeq(p, b \div 8 + 1, b \div 8 + size)
             plen == buf[1]
             z    == SelectInSeq(buf, LAMBDA x : x = 0)
         IN  [special |-> TRUE, ok |-> TRUE, p |-> lim,
              rec |-> [rec EXCEPT !.Name =
                 IF size = 0 THEN <<>>
                 ELSE IF rec.PreDefined # Z8 /\ size >= 2 /\ size = plen + 1
                      THEN SubSeq(buf, 2, plen + 1)           \* Pascal string
                      ELSE IF z = 0 THEN buf ELSE SubSeq(buf, 1, z - 1)]]
    [] s = "Emsg" /\ f.n \in {"SchemeIdUri", "Value"} /\ Ver(root) # 0 ->
         [special |-> TRUE, ok |-> TRUE, p |-> b, rec |-> rec]
    [] s = "Emsg" /\ f.n = "MessageData" /\ Ver(root) # 0 ->
         LET a == ZStr(p, b, lim)
             c == IF a.ok THEN ZStr(p, a.p, lim) ELSE Fail
         IN  IF ~c.ok THEN [special |-> TRUE, ok |-> FALSE, p |-> 0, rec |-> rec]
             ELSE [special |-> TRUE, ok |-> TRUE, p |-> lim,
                   rec |-> [rec EXCEPT !.SchemeIdUri = a.v, !.Value = c.v,
                                       !.MessageData = SubSeq(p, c.p \div 8 + 1, lim \div 8)]]
    [] f.sp = "not" ->
         LET sz == SizeOf(s, f, rec, root, ctx)
         IN  [special |-> TRUE, ok |-> sz <= lim - b, p |-> b + sz,
              rec |-> IF sz <= lim - b THEN [rec EXCEPT ![f.n] = Trunc(Trunc(Not(ReadBits(p, b, sz)), sz), f.w)] ELSE rec]
    [] f.sp = "left" ->
         [special |-> TRUE, ok |-> TRUE, p |-> b, rec |-> [rec EXCEPT ![f.n] = lim - b >= 32]]
    [] f.sp = "pad" ->
         IF b + 8 <= lim /\ Bits8(p, b) = 119 THEN [special |-> FALSE, ok |-> TRUE, p |-> b + 8, rec |-> rec]
         ELSE [special |-> TRUE, ok |-> FALSE, p |-> b, rec |-> rec]
    [] OTHER -> [special |-> FALSE, ok |-> TRUE, p |-> b, rec |-> rec]

DecStruct(s, p, b, lim, root, isRoot, ctx) ==
  LET Step(acc, f) ==
        IF ~acc.ok THEN acc
        ELSE LET rt == IF isRoot THEN acc.v ELSE root IN
             IF ~Active(s, f, acc.v, rt, ctx) THEN acc
             ELSE LET sp == Special(s, f, p, acc.p, lim, acc.v, rt, ctx) IN
                  IF sp.special THEN [ok |-> sp.ok, v |-> sp.rec, p |-> sp.p]
                  ELSE LET r == DecField(s, f, p, sp.p, lim, acc.v, rt, ctx)
                       IN  IF r.ok THEN [ok |-> TRUE, v |-> [acc.v EXCEPT ![f.n] = r.v], p |-> r.p]
                           ELSE Fail
  IN  FoldLeft(Step, [ok |-> TRUE, v |-> ZeroTab[s], p |-> b], Layout[s])

\* A whole payload.  def = [layout, versions] as resolved by Registry.
\* st: "ok" (v, n), "err", "unsup"
DErr   == [st |-> "err", n |-> 0, v |-> <<>>]
DUnsup == [st |-> "unsup", n |-> 0, v |-> <<>>]
FirstIsFull(s) == Layout[s] # <<>> /\ Layout[s][1].n = "FullBox"
\* (DecodeF, EncodeF: TLC evaluates the body of a constant function in an empty
\* context, once per argument, whatever expression it is called from)
Decode0(def, p, ctx) ==
  LET s == def.layout IN
  IF s = "Meta" /\ (Len(p) < 4 \/ SubSeq(p, 1, 4) # <<0,0,0,0>>)
  THEN [st |-> "ok", n |-> 0, v |-> ZeroTab[s]]              \* QuickTime meta: no own fields
  ELSE IF FirstIsFull(s) /\ Len(p) < 4 THEN DErr
  ELSE IF FirstIsFull(s) /\ def.versions # {} /\ p[1] \notin def.versions THEN DUnsup
  ELSE IF BeforeOf(s) = "skip" /\ Len(p) < 2 THEN DErr
  ELSE IF BeforeOf(s) = "magic" /\ Len(p) > 0 /\ p[1] = 238 THEN [st |-> "ok", n |-> 1, v |-> ZeroTab[s]]
  ELSE LET r == DecStruct(s, p, IF BeforeOf(s) = "skip" THEN 16 ELSE 0, 8 * Len(p), ZeroTab[s], TRUE, ctx)
       IN  IF r.ok /\ r.p % 8 = 0 THEN [st |-> "ok", n |-> r.p \div 8, v |-> r.v] ELSE DErr

DecodeF == [q \in Any |-> Decode0(q[1], q[2], q[3])]
Decode(def, p, ctx) == DecodeF[<<def, p, ctx>>]

\* ------------------------------------------------------------------ encode
\* accumulator: complete bytes b, m pending bits with value c
EInit == [ok |-> TRUE, b |-> <<>>, c |-> 0, m |-> 0]
PutBit(a, x) ==
  IF a.m = 7 THEN [a EXCEPT !.b = Append(@, a.c * 2 + x), !.c = 0, !.m = 0]
  ELSE [a EXCEPT !.c = @ * 2 + x, !.m = @ + 1]
RECURSIVE PutBits(_, _, _)
PutBits(a, v, w) ==                 \* the low w bits of W64 v
  IF w > 64 THEN PutBits(PutBits(a, Z8, w - 64), v, 64)
  ELSE IF a.m = 0 /\ w % 8 = 0 THEN [a EXCEPT !.b = @ \o ToBytes(v, w \div 8)]
  ELSE FoldLeft(LAMBDA x, k : PutBit(x, BitOf(v, w - k)), a, [k \in 1..w |-> k])
PutBytes(a, bs) ==
  IF a.m = 0 THEN [a EXCEPT !.b = @ \o bs]
  ELSE FoldLeft(LAMBDA x, y : PutBits(x, W(y), 8), a, bs)
EFail == [EInit EXCEPT !.ok = FALSE]

\* an integer of w bits: low bits with the sign in the top bit
SignedBits(v, w) ==
  LET neg == IsNeg(v)
      t   == Trunc(v, w)
      k   == 8 - ((w - 1) \div 8)
      hb  == P2[((w - 1) % 8) + 1]
      on  == (t[k] \div hb) % 2 = 1
  IN  IF neg /\ ~on THEN [t EXCEPT ![k] = @ + hb]
      ELSE IF ~neg /\ on THEN [t EXCEPT ![k] = @ - hb] ELSE t

PutUvar(a, v) ==
  LET Sep(sh) == \* seven bits of v from bit sh
        (BitOf(v, sh) + 2 * BitOf(v, sh + 1) + 4 * BitOf(v, sh + 2) + 8 * BitOf(v, sh + 3)
         + 16 * BitOf(v, sh + 4) + 32 * BitOf(v, sh + 5) + 64 * BitOf(v, sh + 6))
  IN  PutBytes(a, <<128 + Sep(21), 128 + Sep(14), 128 + Sep(7), Sep(0)>>)

RECURSIVE EncStruct(_, _, _, _, _)
EncScalar(k, f, sz, v, a, root, ctx) ==
  CASE k = "struct" -> EncStruct(f.sub, v, a, root, ctx)
    [] k = "str"    -> LET x == PutBytes(a, v)
                       IN  IF "boxstring" \in f.fl THEN x ELSE PutBytes(x, <<0>>)
    [] k = "uint" /\ "varint" \in f.fl -> PutUvar(a, v)
    [] k = "int" /\ "varint" \in f.fl -> EFail
    [] sz = 0 -> a
    [] k = "uint" -> PutBits(a, v, sz)
    [] k = "int"  -> PutBits(a, SignedBits(v, sz), sz)
    [] k = "bool" -> PutBits(a, IF v THEN <<255,255,255,255,255,255,255,255>> ELSE Z8, sz)

EncElems(f, sz, vs, a, root, ctx) ==
  IF f.e = "uint" /\ f.w = 8 /\ sz = 8 /\ "varint" \notin f.fl THEN PutBytes(a, vs)
  ELSE FoldLeft(LAMBDA x, v : IF ~x.ok THEN x
                  ELSE EncScalar(f.e, f, sz, IF f.e = "uint" /\ f.w = 8 THEN W(v) ELSE v, x, root, ctx),
                a, vs)

EncField(s, f, v, a, rec, root, ctx) ==
  LET sz == SizeOf(s, f, rec, root, ctx) IN
  CASE f.k = "ptr" -> IF v = <<>> THEN EFail ELSE EncScalar("struct", f, sz, v[1], a, root, ctx)
    [] f.k = "arr" -> EncElems(f, sz, v, a, root, ctx)
    [] f.k = "slice" ->
         LET ln == LenOf(s, f, rec, root, ctx) IN
         IF ln = UnlLen THEN EncElems(f, sz, v, a, root, ctx)
         ELSE IF IsBig(ln) \/ Len(v) < N(ln) THEN EFail
         ELSE EncElems(f, sz, SubSeq(v, 1, N(ln)), a, root, ctx)
    [] OTHER -> EncScalar(f.k, f, sz, v, a, root, ctx)

EncSpecial(s, f, rec, a, root, ctx) ==
  CASE s = "AVCDecoderConfiguration" /\ f.n = "HighProfileFieldsEnabled" ->
         [special |-> TRUE,
          a |-> IF rec.HighProfileFieldsEnabled /\ rec.Profile[8] \notin HighProfiles THEN EFail ELSE a]
    [] s = "Emsg" /\ f.n \in {"SchemeIdUri", "Value"} /\ Ver(root) # 0 -> [special |-> TRUE, a |-> a]
    [] s = "Emsg" /\ f.n = "MessageData" /\ Ver(root) # 0 ->
         [special |-> TRUE,
          a |-> PutBytes(a, rec.SchemeIdUri \o <<0>> \o rec.Value \o <<0>> \o rec.MessageData)]
    [] f.sp = "not" -> [special |-> TRUE, a |-> PutBits(a, Not(rec[f.n]), SizeOf(s, f, rec, root, ctx))]
    [] f.sp = "left" -> [special |-> TRUE, a |-> a]
    [] f.sp = "pad" -> [special |-> FALSE, a |-> PutBits(a, W(119), 8)]
    [] OTHER -> [special |-> FALSE, a |-> a]

EncStruct(s, rec, a0, root, ctx) ==
  FoldLeft(LAMBDA a, f :
    IF ~a.ok \/ ~Active(s, f, rec, root, ctx) THEN a
    ELSE LET sp == EncSpecial(s, f, rec, a, root, ctx) IN
         IF sp.special THEN sp.a ELSE EncField(s, f, rec[f.n], sp.a, rec, root, ctx),
    a0, Layout[s])

Encode0(s, rec, ctx) ==
  LET a == EncStruct(s, rec, EInit, rec, ctx)
  IN  IF a.ok /\ a.m = 0 THEN [st |-> "ok", b |-> a.b] ELSE [st |-> "err", b |-> <<>>]
EncodeF == [q \in Any |-> Encode0(q[1], q[2], q[3])]
Encode(s, rec, ctx) == EncodeF[<<s, rec, ctx>>]
=============================================================================
