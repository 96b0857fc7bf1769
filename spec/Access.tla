------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* The accessors of box values: version and flags as a state with          *)
(* operations, the brands of a file as a set kept in a list, the getters   *)
(* that choose the field of the box's version or turn a fixed point field  *)
(* into a number, and box types as numbers and as text.                    *)
(***************************************************************************)
EXTENDS Codec, Fourcc

\* ----------------------------------------------------- version and flags
\* a state: [full, ver (a byte), flags (three bytes)]; a mask has four bytes
FSt(full, ver, flags) == [full |-> full, ver |-> ver, flags |-> flags]
Low24(m) == <<m[2], m[3], m[4]>>
BitSet(a) == {k \in 1..8 : (a \div P2[k]) % 2 = 1}
OfBits(S) == FoldLeft(LAMBDA x, k : IF k \in S THEN x + P2[k] ELSE x, 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)
Each(Op(_, _), f, m) == <<Op(f[1], m[1]), Op(f[2], m[2]), Op(f[3], m[3])>>
Or8(a, b) == OfBits(BitSet(a) \cup BitSet(b))
Without8(a, b) == OfBits(BitSet(a) \ BitSet(b))
Meet(f, m) == \E i \in 1..3 : BitSet(f[i]) \cap BitSet(m[i]) # {}

\* an operation gives the next state and an answer
FRes(s, a) == [s |-> s, a |-> a]
\* names: setv, getv, set, get, add, remove, check; x is a byte (setv) or a mask
FOp(s, op, x) ==
  CASE op = "getv" -> FRes(s, W(IF s.full THEN s.ver ELSE 0))
    [] op = "get" -> FRes(s, IF s.full THEN <<0, 0, 0, 0, 0>> \o s.flags ELSE Z8)
    \* a box without flags allows everything
    [] op = "check" -> FRes(s, ~s.full \/ Meet(s.flags, Low24(x)))
    [] ~s.full -> FRes(s, Z8)
    [] op = "setv" -> FRes([s EXCEPT !.ver = x[4]], Z8)
    [] op = "set" -> FRes([s EXCEPT !.flags = Low24(x)], Z8)
    [] op = "add" -> FRes([s EXCEPT !.flags = Each(Or8, @, Low24(x))], Z8)
    [] op = "remove" -> FRes([s EXCEPT !.flags = Each(Without8, @, Low24(x))], Z8)

\* ------------------------------------------------------------------ brands
\* a list of brands stands for a bag; adding keeps a brand that is there
Count(bs, x) == Cardinality({i \in DOMAIN bs : bs[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
BHas(bs, x) == \E i \in DOMAIN bs : bs[i] = x
BAdd(bs, x) == IF BHas(bs, x) THEN bs ELSE Append(bs, x)
BRemove(bs, x) == SelectSeq(bs, LAMBDA y : y # x)

\* ----------------------------------------------------------------- getters
G(m, k, a) == [m |-> m, k |-> k, a |-> a]
GetterTab == [
  Cslg |-> <<G("GetCompositionToDTSShift", "ver", "CompositionToDTSShift"),
             G("GetLeastDecodeToDisplayDelta", "ver", "LeastDecodeToDisplayDelta"),
             G("GetGreatestDecodeToDisplayDelta", "ver", "GreatestDecodeToDisplayDelta"),
             G("GetCompositionStartTime", "ver", "CompositionStartTime"),
             G("GetCompositionEndTime", "ver", "CompositionEndTime")>>,
  Ctts |-> <<G("GetSampleOffset", "entry", "SampleOffset")>>,
  Elst |-> <<G("GetSegmentDuration", "entry", "SegmentDuration"), G("GetMediaTime", "entry", "MediaTime")>>,
  Mdhd |-> <<G("GetCreationTime", "ver", "CreationTime"), G("GetModificationTime", "ver", "ModificationTime"),
             G("GetDuration", "ver", "Duration")>>,
  Mvhd |-> <<G("GetCreationTime", "ver", "CreationTime"), G("GetModificationTime", "ver", "ModificationTime"),
             G("GetDuration", "ver", "Duration"), G("GetRate", "s16.16", "Rate"), G("GetRateInt", "s16", "Rate")>>,
  Tkhd |-> <<G("GetCreationTime", "ver", "CreationTime"), G("GetModificationTime", "ver", "ModificationTime"),
             G("GetDuration", "ver", "Duration"), G("GetWidth", "u16.16", "Width"), G("GetHeight", "u16.16", "Height"),
             G("GetWidthInt", "u16", "Width"), G("GetHeightInt", "u16", "Height")>>,
  Mehd |-> <<G("GetFragmentDuration", "ver", "FragmentDuration")>>,
  Saio |-> <<G("GetOffset", "list", "Offset")>>,
  Sidx |-> <<G("GetEarliestPresentationTime", "ver", "EarliestPresentationTime"),
             G("GetFirstOffset", "ver", "FirstOffset")>>,
  Tfdt |-> <<G("GetBaseMediaDecodeTime", "ver", "BaseMediaDecodeTime")>>,
  Tfra |-> <<G("GetTime", "entry", "Time"), G("GetMoofOffset", "entry", "MoofOffset")>>,
  Trun |-> <<G("GetSampleCompositionTimeOffset", "entry", "SampleCompositionTimeOffset")>>,
  AudioSampleEntry |-> <<G("GetSampleRate", "u16.16", "SampleRate"), G("GetSampleRateInt", "u16", "SampleRate")>>,
  Smhd |-> <<G("GetBalance", "s8.8", "Balance"), G("GetBalanceInt", "s8", "Balance")>>,
  XMLSubtitleSampleEntry |-> <<G("GetNamespaceList", "words", "Namespace"),
                               G("GetSchemaLocationList", "words", "SchemaLocation"),
                               G("GetAuxiliaryMIMETypesList", "words", "AuxiliaryMIMETypes")>> ]

Indexed(g) == g.k \in {"entry", "list"}
\* number of valid indices; a version nobody knows has no fields at all, every answer is zero
ListOf(v, g) == IF g.k = "entry" THEN v.Entries
                ELSE CASE Ver(v) = 0 -> v[g.a \o "V0"] [] Ver(v) = 1 -> v[g.a \o "V1"] [] OTHER -> <<0>>

\* words of a text: cut at blanks, no empty words
Blank(x) == x \in {9, 10, 11, 12, 13, 32}
RECURSIVE WordsFrom(_, _, _, _)
WordsFrom(s, i, cur, acc) ==
  LET done == IF cur = <<>> THEN acc ELSE Append(acc, cur) IN
  IF i > Len(s) THEN done
  ELSE IF Blank(s[i]) THEN WordsFrom(s, i + 1, <<>>, done)
  ELSE WordsFrom(s, i + 1, Append(cur, s[i]), acc)
Words(s) == WordsFrom(s, 1, <<>>, <<>>)
Ascii(s) == \A i \in DOMAIN s : s[i] < 128

\* value of getter g of box value v at (one-based) index i.
\* Fractions are given in units of 2^-20.
ByVersion(v, rec, a) == CASE Ver(v) = 0 -> rec[a \o "V0"] [] Ver(v) = 1 -> rec[a \o "V1"] [] OTHER -> Z8
ValueOf(v, g, i) ==
  CASE g.k = "ver"   -> ByVersion(v, v, g.a)
    [] g.k = "entry" -> ByVersion(v, v.Entries[i], g.a)
    [] g.k = "list"  -> IF Ver(v) \in {0, 1} THEN ListOf(v, g)[i] ELSE Z8
    [] g.k \in {"s16.16", "u16.16"} -> Mul(v[g.a], W(16))
    [] g.k = "s8.8"  -> Mul(v[g.a], W(4096))
    [] g.k = "s16"   -> SExt(<<0, 0, 0, 0, 0, 0, v[g.a][5], v[g.a][6]>>, 16)
    [] g.k = "u16"   -> <<0, 0, 0, 0, 0, 0, v[g.a][5], v[g.a][6]>>
    [] g.k = "s8"    -> SExt(W(v[g.a][7]), 8)
    [] g.k = "words" -> Words(v[g.a])

\* --------------------------------------------------------------- box types
TypesMatch(a, b) == a = b \/ a = <<0, 0, 0, 0>> \/ b = <<0, 0, 0, 0>>

BrandTab == [
  QT   |-> <<113, 116, 32, 32>>,   ISOM |-> <<105, 115, 111, 109>>, ISO2 |-> <<105, 115, 111, 50>>,
  ISO3 |-> <<105, 115, 111, 51>>,  ISO4 |-> <<105, 115, 111, 52>>,  ISO5 |-> <<105, 115, 111, 53>>,
  ISO6 |-> <<105, 115, 111, 54>>,  ISO7 |-> <<105, 115, 111, 55>>,  ISO8 |-> <<105, 115, 111, 56>>,
  ISO9 |-> <<105, 115, 111, 57>>,  AVC1 |-> <<97, 118, 99, 49>>,    MP41 |-> <<109, 112, 52, 49>>,
  MP71 |-> <<109, 112, 55, 49>> ]

\* numbers that have a name: the mask of an optional field is the one its layout gives it
OptOf(layout, n) == LET f == Layout[layout] k == SelectInSeq(f, LAMBDA x : x.n = n) IN f[k].opt
ConstTab == [
  UrlSelfContained |-> 1, UrnSelfContained |-> 1,
  AVCBaselineProfile |-> 66, AVCMainProfile |-> 77, AVCExtendedProfile |-> 88,
  AVCHighProfile |-> 100, AVCHigh10Profile |-> 110, AVCHigh422Profile |-> 122,
  TfhdBaseDataOffsetPresent |-> OptOf("Tfhd", "BaseDataOffset"),
  TfhdSampleDescriptionIndexPresent |-> OptOf("Tfhd", "SampleDescriptionIndex"),
  TfhdDefaultSampleDurationPresent |-> OptOf("Tfhd", "DefaultSampleDuration"),
  TfhdDefaultSampleSizePresent |-> OptOf("Tfhd", "DefaultSampleSize"),
  TfhdDefaultSampleFlagsPresent |-> OptOf("Tfhd", "DefaultSampleFlags"),
  TfhdDurationIsEmpty |-> 65536, TfhdDefaultBaseIsMoof |-> 131072,
  ESDescrTag |-> 3, DecoderConfigDescrTag |-> 4, DecSpecificInfoTag |-> 5, SLConfigDescrTag |-> 6,
  DataTypeBinary |-> 0, DataTypeStringUTF8 |-> 1, DataTypeStringUTF16 |-> 2,
  DataTypeSignedIntBigEndian |-> 21, DataTypeFloat32BigEndian |-> 22, DataTypeFloat64BigEndian |-> 23 ]
=============================================================================
