------------------------------ MODULE Layouts ------------------------------
(***************************************************************************)
(* The published layout of every box payload the library supports: for     *)
(* each structure the sequence of its fields in file order.                *)
(*                                                                         *)
(* This table is part of the specification.  It is committed text,         *)
(* reviewed against ISO/IEC 14496-12/-14/-15/-30, 23001-7, QTFF and the    *)
(* other documents the library names; nothing at check time derives it     *)
(* from the implementation.  Known deviations of the library from those    *)
(* documents which its own stable tests pin down (hvcC temporal layers)    *)
(* are written here as the library has them and listed in                  *)
(* known_findings.json.                                                    *)
(*                                                                         *)
(* Field descriptor FD:                                                    *)
(*   n    name                                                             *)
(*   k    "uint" "int" "bool" "str" "struct" "ptr" "arr" "slice"           *)
(*   e    element kind of "arr"/"slice"; cnt = element count of "arr"      *)
(*   w    width of the API integer in bits (values are truncated to it)    *)
(*   sz   width in the file in bits (0: none, DYN: rule in Codec!DynSize)  *)
(*   ln   list length (UNL: to the end of the payload, DYN: Codec!DynLen)  *)
(*   sub  structure of "struct"/"ptr"/elements                             *)
(*   ver / nver   present only in / not in this version (NOVER: any)       *)
(*   opt / nopt   present only if one / none of these flag bits is set     *)
(*   dyn  presence given by the rule Codec!DynOpt                          *)
(*   fl   presentation and coding flags                                    *)
(* and, in layouts of users of the library (UserLayouts):                  *)
(*   own  dynamic rules look at this structure (otherwise at the box)      *)
(*   lsrc / ssrc / osrc   field that gives list length / size / presence;  *)
(*        size = (value mod smod) * smul + sadd                            *)
(*   sp   coding of the user's own: "not" (bits inverted), "pad" (a byte   *)
(*        0x77 comes first), "left" (whether 32 bits are left, no bits)    *)
(*   txt  text of the user's own                                           *)
(*   hint, hb   for the generation of values: "cnt" small number, "true",  *)
(*        "false"; bits before an unlimited list in a structure of a size  *)
(***************************************************************************)
EXTENDS Integers, Sequences

DYN   == -2
UNL   == -1
NOVER == 255

FD == [n |-> "", k |-> "uint", e |-> "", cnt |-> 0, w |-> 0, sz |-> 0, ln |-> UNL,
       sub |-> "", ver |-> NOVER, nver |-> NOVER, opt |-> 0, nopt |-> 0,
       dyn |-> FALSE, fl |-> {},
       own |-> FALSE, lsrc |-> "", ssrc |-> "", smod |-> 1, smul |-> 0, sadd |-> 0, osrc |-> "", sp |-> "",
       txt |-> FALSE, hint |-> "", hb |-> -1]

L_AVCDecoderConfiguration == <<
  [FD EXCEPT !.n = "ConfigurationVersion", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "Profile", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "ProfileCompatibility", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "Level", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "Reserved", !.k = "uint", !.w = 8, !.sz = 6, !.fl = {"const"}],
  [FD EXCEPT !.n = "LengthSizeMinusOne", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "Reserved2", !.k = "uint", !.w = 8, !.sz = 3, !.fl = {"const"}],
  [FD EXCEPT !.n = "NumOfSequenceParameterSets", !.k = "uint", !.w = 8, !.sz = 5],
  [FD EXCEPT !.n = "SequenceParameterSets", !.k = "slice", !.e = "struct", !.sub = "AVCParameterSet", !.ln = DYN],
  [FD EXCEPT !.n = "NumOfPictureParameterSets", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "PictureParameterSets", !.k = "slice", !.e = "struct", !.sub = "AVCParameterSet", !.ln = DYN],
  [FD EXCEPT !.n = "HighProfileFieldsEnabled", !.k = "bool", !.w = 8, !.fl = {"hidden"}],
  [FD EXCEPT !.n = "Reserved3", !.k = "uint", !.w = 8, !.sz = 6, !.dyn = TRUE, !.fl = {"const"}],
  [FD EXCEPT !.n = "ChromaFormat", !.k = "uint", !.w = 8, !.sz = 2, !.dyn = TRUE],
  [FD EXCEPT !.n = "Reserved4", !.k = "uint", !.w = 8, !.sz = 5, !.dyn = TRUE, !.fl = {"const"}],
  [FD EXCEPT !.n = "BitDepthLumaMinus8", !.k = "uint", !.w = 8, !.sz = 3, !.dyn = TRUE],
  [FD EXCEPT !.n = "Reserved5", !.k = "uint", !.w = 8, !.sz = 5, !.dyn = TRUE, !.fl = {"const"}],
  [FD EXCEPT !.n = "BitDepthChromaMinus8", !.k = "uint", !.w = 8, !.sz = 3, !.dyn = TRUE],
  [FD EXCEPT !.n = "NumOfSequenceParameterSetExt", !.k = "uint", !.w = 8, !.sz = 8, !.dyn = TRUE],
  [FD EXCEPT !.n = "SequenceParameterSetsExt", !.k = "slice", !.e = "struct", !.sub = "AVCParameterSet", !.ln = DYN, !.dyn = TRUE]
>>

L_AVCParameterSet == <<
  [FD EXCEPT !.n = "Length", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "NALUnit", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.ln = DYN]
>>

L_AlternativeStartupEntry == <<
  [FD EXCEPT !.n = "RollCount", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "FirstOutputSample", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "SampleOffset", !.k = "slice", !.e = "uint", !.w = 32, !.sz = 32, !.ln = DYN],
  [FD EXCEPT !.n = "Opts", !.k = "slice", !.e = "struct", !.sub = "AlternativeStartupEntryOpt", !.sz = 32]
>>

L_AlternativeStartupEntryL == <<
  [FD EXCEPT !.n = "DescriptionLength", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "AlternativeStartupEntry", !.k = "struct", !.sub = "AlternativeStartupEntry", !.sz = DYN, !.fl = {"extend"}]
>>

L_AlternativeStartupEntryOpt == <<
  [FD EXCEPT !.n = "NumOutputSamples", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "NumTotalSamples", !.k = "uint", !.w = 16, !.sz = 16]
>>

L_AudioSampleEntry == <<
  [FD EXCEPT !.n = "SampleEntry", !.k = "struct", !.sub = "SampleEntry", !.dyn = TRUE, !.fl = {"extend"}],
  [FD EXCEPT !.n = "EntryVersion", !.k = "uint", !.w = 16, !.sz = 16, !.dyn = TRUE],
  [FD EXCEPT !.n = "Reserved", !.k = "arr", !.e = "uint", !.w = 16, !.cnt = 3, !.sz = 16, !.dyn = TRUE, !.fl = {"const"}],
  [FD EXCEPT !.n = "ChannelCount", !.k = "uint", !.w = 16, !.sz = 16, !.dyn = TRUE],
  [FD EXCEPT !.n = "SampleSize", !.k = "uint", !.w = 16, !.sz = 16, !.dyn = TRUE],
  [FD EXCEPT !.n = "PreDefined", !.k = "uint", !.w = 16, !.sz = 16, !.dyn = TRUE],
  [FD EXCEPT !.n = "Reserved2", !.k = "uint", !.w = 16, !.sz = 16, !.dyn = TRUE, !.fl = {"const"}],
  [FD EXCEPT !.n = "SampleRate", !.k = "uint", !.w = 32, !.sz = 32, !.dyn = TRUE],
  [FD EXCEPT !.n = "QuickTimeData", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.ln = DYN, !.dyn = TRUE]
>>

L_Av1C == <<
  [FD EXCEPT !.n = "Marker", !.k = "uint", !.w = 8, !.sz = 1, !.fl = {"const"}],
  [FD EXCEPT !.n = "Version", !.k = "uint", !.w = 8, !.sz = 7, !.fl = {"const"}],
  [FD EXCEPT !.n = "SeqProfile", !.k = "uint", !.w = 8, !.sz = 3],
  [FD EXCEPT !.n = "SeqLevelIdx0", !.k = "uint", !.w = 8, !.sz = 5],
  [FD EXCEPT !.n = "SeqTier0", !.k = "uint", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "HighBitdepth", !.k = "uint", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "TwelveBit", !.k = "uint", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "Monochrome", !.k = "uint", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "ChromaSubsamplingX", !.k = "uint", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "ChromaSubsamplingY", !.k = "uint", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "ChromaSamplePosition", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "Reserved", !.k = "uint", !.w = 8, !.sz = 3, !.fl = {"const"}],
  [FD EXCEPT !.n = "InitialPresentationDelayPresent", !.k = "uint", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "InitialPresentationDelayMinusOne", !.k = "uint", !.w = 8, !.sz = 4],
  [FD EXCEPT !.n = "ConfigOBUs", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8]
>>

L_Btrt == <<
  [FD EXCEPT !.n = "BufferSizeDB", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "MaxBitrate", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "AvgBitrate", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_Co64 == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "EntryCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "ChunkOffset", !.k = "slice", !.e = "uint", !.w = 64, !.sz = 64, !.ln = DYN]
>>

L_Colr == <<
  [FD EXCEPT !.n = "ColourType", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 4, !.sz = 8, !.fl = {"string"}],
  [FD EXCEPT !.n = "ColourPrimaries", !.k = "uint", !.w = 16, !.sz = 16, !.dyn = TRUE],
  [FD EXCEPT !.n = "TransferCharacteristics", !.k = "uint", !.w = 16, !.sz = 16, !.dyn = TRUE],
  [FD EXCEPT !.n = "MatrixCoefficients", !.k = "uint", !.w = 16, !.sz = 16, !.dyn = TRUE],
  [FD EXCEPT !.n = "FullRangeFlag", !.k = "bool", !.w = 8, !.sz = 1, !.dyn = TRUE],
  [FD EXCEPT !.n = "Reserved", !.k = "uint", !.w = 8, !.sz = 7, !.dyn = TRUE],
  [FD EXCEPT !.n = "Profile", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.dyn = TRUE],
  [FD EXCEPT !.n = "Unknown", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.dyn = TRUE]
>>

L_CompatibleBrandElem == <<
  [FD EXCEPT !.n = "CompatibleBrand", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 4, !.sz = 8, !.fl = {"string"}]
>>

L_Cslg == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "CompositionToDTSShiftV0", !.k = "int", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "LeastDecodeToDisplayDeltaV0", !.k = "int", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "GreatestDecodeToDisplayDeltaV0", !.k = "int", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "CompositionStartTimeV0", !.k = "int", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "CompositionEndTimeV0", !.k = "int", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "CompositionToDTSShiftV1", !.k = "int", !.w = 64, !.sz = 64, !.nver = 0],
  [FD EXCEPT !.n = "LeastDecodeToDisplayDeltaV1", !.k = "int", !.w = 64, !.sz = 64, !.nver = 0],
  [FD EXCEPT !.n = "GreatestDecodeToDisplayDeltaV1", !.k = "int", !.w = 64, !.sz = 64, !.nver = 0],
  [FD EXCEPT !.n = "CompositionStartTimeV1", !.k = "int", !.w = 64, !.sz = 64, !.nver = 0],
  [FD EXCEPT !.n = "CompositionEndTimeV1", !.k = "int", !.w = 64, !.sz = 64, !.nver = 0]
>>

L_Ctts == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "EntryCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Entries", !.k = "slice", !.e = "struct", !.sub = "CttsEntry", !.sz = 64, !.ln = DYN]
>>

L_CttsEntry == <<
  [FD EXCEPT !.n = "SampleCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "SampleOffsetV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "SampleOffsetV1", !.k = "int", !.w = 32, !.sz = 32, !.ver = 1]
>>

L_CueIDBox == <<
  [FD EXCEPT !.n = "CueId", !.k = "str", !.fl = {"boxstring"}]
>>

L_CuePayloadBox == <<
  [FD EXCEPT !.n = "CueText", !.k = "str", !.fl = {"boxstring"}]
>>

L_CueSettingsBox == <<
  [FD EXCEPT !.n = "Settings", !.k = "str", !.fl = {"boxstring"}]
>>

L_CueSourceIDBox == <<
  [FD EXCEPT !.n = "SourceId", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_CueTimeBox == <<
  [FD EXCEPT !.n = "CueCurrentTime", !.k = "str", !.fl = {"boxstring"}]
>>

L_DOps == <<
  [FD EXCEPT !.n = "Version", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "OutputChannelCount", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "PreSkip", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "InputSampleRate", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "OutputGain", !.k = "int", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "ChannelMappingFamily", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "StreamCount", !.k = "uint", !.w = 8, !.sz = 8, !.dyn = TRUE],
  [FD EXCEPT !.n = "CoupledCount", !.k = "uint", !.w = 8, !.sz = 8, !.dyn = TRUE],
  [FD EXCEPT !.n = "ChannelMapping", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.ln = DYN, !.dyn = TRUE]
>>

L_Dac3 == <<
  [FD EXCEPT !.n = "Fscod", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "Bsid", !.k = "uint", !.w = 8, !.sz = 5],
  [FD EXCEPT !.n = "Bsmod", !.k = "uint", !.w = 8, !.sz = 3],
  [FD EXCEPT !.n = "Acmod", !.k = "uint", !.w = 8, !.sz = 3],
  [FD EXCEPT !.n = "LfeOn", !.k = "uint", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "BitRateCode", !.k = "uint", !.w = 8, !.sz = 5],
  [FD EXCEPT !.n = "Reserved", !.k = "uint", !.w = 8, !.sz = 5, !.fl = {"const"}]
>>

L_Data == <<
  [FD EXCEPT !.n = "DataType", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "DataLang", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Data", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8]
>>

L_DecoderConfigDescriptor == <<
  [FD EXCEPT !.n = "ObjectTypeIndication", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "StreamType", !.k = "int", !.w = 8, !.sz = 6],
  [FD EXCEPT !.n = "UpStream", !.k = "bool", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "Reserved", !.k = "bool", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "BufferSizeDB", !.k = "uint", !.w = 32, !.sz = 24],
  [FD EXCEPT !.n = "MaxBitrate", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "AvgBitrate", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_Descriptor == <<
  [FD EXCEPT !.n = "Tag", !.k = "int", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "Size", !.k = "uint", !.w = 32, !.fl = {"varint"}],
  [FD EXCEPT !.n = "ESDescriptor", !.k = "ptr", !.sub = "ESDescriptor", !.dyn = TRUE, !.fl = {"extend"}],
  [FD EXCEPT !.n = "DecoderConfigDescriptor", !.k = "ptr", !.sub = "DecoderConfigDescriptor", !.dyn = TRUE, !.fl = {"extend"}],
  [FD EXCEPT !.n = "Data", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.ln = DYN, !.dyn = TRUE]
>>

L_Dinf == <<
>>

L_Dref == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "EntryCount", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_ESDescriptor == <<
  [FD EXCEPT !.n = "ESID", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "StreamDependenceFlag", !.k = "bool", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "UrlFlag", !.k = "bool", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "OcrStreamFlag", !.k = "bool", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "StreamPriority", !.k = "int", !.w = 8, !.sz = 5],
  [FD EXCEPT !.n = "DependsOnESID", !.k = "uint", !.w = 16, !.sz = 16, !.dyn = TRUE],
  [FD EXCEPT !.n = "URLLength", !.k = "uint", !.w = 8, !.sz = 8, !.dyn = TRUE],
  [FD EXCEPT !.n = "URLString", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.ln = DYN, !.dyn = TRUE, !.fl = {"string"}],
  [FD EXCEPT !.n = "OCRESID", !.k = "uint", !.w = 16, !.sz = 16, !.dyn = TRUE]
>>

L_Edts == <<
>>

L_Elst == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "EntryCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Entries", !.k = "slice", !.e = "struct", !.sub = "ElstEntry", !.sz = DYN, !.ln = DYN]
>>

L_ElstEntry == <<
  [FD EXCEPT !.n = "SegmentDurationV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "MediaTimeV0", !.k = "int", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "SegmentDurationV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "MediaTimeV1", !.k = "int", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "MediaRateInteger", !.k = "int", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "MediaRateFraction", !.k = "int", !.w = 16, !.sz = 16, !.fl = {"const"}]
>>

L_Emsg == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "SchemeIdUri", !.k = "str", !.fl = {"string"}],
  [FD EXCEPT !.n = "Value", !.k = "str", !.fl = {"string"}],
  [FD EXCEPT !.n = "Timescale", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "PresentationTimeDelta", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "PresentationTime", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "EventDuration", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Id", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "MessageData", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.fl = {"string"}]
>>

L_Esds == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "Descriptors", !.k = "slice", !.e = "struct", !.sub = "Descriptor"]
>>

L_Fiel == <<
  [FD EXCEPT !.n = "FieldCount", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "FieldOrdering", !.k = "uint", !.w = 8, !.sz = 8]
>>

L_Free == <<
  [FD EXCEPT !.n = "Data", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8]
>>

L_Frma == <<
  [FD EXCEPT !.n = "DataFormat", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 4, !.sz = 8, !.fl = {"string"}]
>>

L_Ftyp == <<
  [FD EXCEPT !.n = "MajorBrand", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 4, !.sz = 8, !.fl = {"string"}],
  [FD EXCEPT !.n = "MinorVersion", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "CompatibleBrands", !.k = "slice", !.e = "struct", !.sub = "CompatibleBrandElem", !.sz = 32]
>>

L_FullBox == <<
  [FD EXCEPT !.n = "Version", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "Flags", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 3, !.sz = 8]
>>

L_HEVCNalu == <<
  [FD EXCEPT !.n = "Length", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "NALUnit", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.ln = DYN]
>>

L_HEVCNaluArray == <<
  [FD EXCEPT !.n = "Completeness", !.k = "bool", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "Reserved", !.k = "bool", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "NaluType", !.k = "uint", !.w = 8, !.sz = 6],
  [FD EXCEPT !.n = "NumNalus", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "Nalus", !.k = "slice", !.e = "struct", !.sub = "HEVCNalu", !.ln = DYN]
>>

L_Hdlr == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "PreDefined", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "HandlerType", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 4, !.sz = 8, !.fl = {"string"}],
  [FD EXCEPT !.n = "Reserved", !.k = "arr", !.e = "uint", !.w = 32, !.cnt = 3, !.sz = 32, !.fl = {"const"}],
  [FD EXCEPT !.n = "Name", !.k = "str", !.fl = {"string"}]
>>

L_HvcC == <<
  [FD EXCEPT !.n = "ConfigurationVersion", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "GeneralProfileSpace", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "GeneralTierFlag", !.k = "bool", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "GeneralProfileIdc", !.k = "uint", !.w = 8, !.sz = 5],
  [FD EXCEPT !.n = "GeneralProfileCompatibility", !.k = "arr", !.e = "bool", !.w = 8, !.cnt = 32, !.sz = 1],
  [FD EXCEPT !.n = "GeneralConstraintIndicator", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 6, !.sz = 8],
  [FD EXCEPT !.n = "GeneralLevelIdc", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "Reserved1", !.k = "uint", !.w = 8, !.sz = 4, !.fl = {"const"}],
  [FD EXCEPT !.n = "MinSpatialSegmentationIdc", !.k = "uint", !.w = 16, !.sz = 12],
  [FD EXCEPT !.n = "Reserved2", !.k = "uint", !.w = 8, !.sz = 6, !.fl = {"const"}],
  [FD EXCEPT !.n = "ParallelismType", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "Reserved3", !.k = "uint", !.w = 8, !.sz = 6, !.fl = {"const"}],
  [FD EXCEPT !.n = "ChromaFormatIdc", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "Reserved4", !.k = "uint", !.w = 8, !.sz = 5, !.fl = {"const"}],
  [FD EXCEPT !.n = "BitDepthLumaMinus8", !.k = "uint", !.w = 8, !.sz = 3],
  [FD EXCEPT !.n = "Reserved5", !.k = "uint", !.w = 8, !.sz = 5, !.fl = {"const"}],
  [FD EXCEPT !.n = "BitDepthChromaMinus8", !.k = "uint", !.w = 8, !.sz = 3],
  [FD EXCEPT !.n = "AvgFrameRate", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "ConstantFrameRate", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "NumTemporalLayers", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "TemporalIdNested", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "LengthSizeMinusOne", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "NumOfNaluArrays", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "NaluArrays", !.k = "slice", !.e = "struct", !.sub = "HEVCNaluArray", !.ln = DYN]
>>

L_Ilst == <<
>>

L_IlstMetaContainer == <<
>>

L_Item == <<
  [FD EXCEPT !.n = "Version", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "Flags", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 3, !.sz = 8],
  [FD EXCEPT !.n = "ItemName", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.ln = 4],
  [FD EXCEPT !.n = "Data", !.k = "struct", !.sub = "Data"]
>>

L_Key == <<
  [FD EXCEPT !.n = "KeySize", !.k = "int", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "KeyNamespace", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.ln = 4],
  [FD EXCEPT !.n = "KeyValue", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.ln = DYN]
>>

L_Keys == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "EntryCount", !.k = "int", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Entries", !.k = "slice", !.e = "struct", !.sub = "Key", !.ln = DYN]
>>

L_Mdat == <<
  [FD EXCEPT !.n = "Data", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8]
>>

L_Mdhd == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "CreationTimeV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "ModificationTimeV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "CreationTimeV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "ModificationTimeV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "Timescale", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "DurationV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "DurationV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "Pad", !.k = "bool", !.w = 8, !.sz = 1, !.fl = {"hidden"}],
  [FD EXCEPT !.n = "Language", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 3, !.sz = 5, !.fl = {"iso"}],
  [FD EXCEPT !.n = "PreDefined", !.k = "uint", !.w = 16, !.sz = 16]
>>

L_Mdia == <<
>>

L_Mehd == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "FragmentDurationV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "FragmentDurationV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1]
>>

L_Meta == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}]
>>

L_Mfhd == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "SequenceNumber", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_Mfra == <<
>>

L_Mfro == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "Size", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_Minf == <<
>>

L_Moof == <<
>>

L_Moov == <<
>>

L_Mvex == <<
>>

L_Mvhd == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "CreationTimeV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "ModificationTimeV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "CreationTimeV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "ModificationTimeV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "Timescale", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "DurationV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "DurationV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "Rate", !.k = "int", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Volume", !.k = "int", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "Reserved", !.k = "int", !.w = 16, !.sz = 16, !.fl = {"const"}],
  [FD EXCEPT !.n = "Reserved2", !.k = "arr", !.e = "uint", !.w = 32, !.cnt = 2, !.sz = 32, !.fl = {"const"}],
  [FD EXCEPT !.n = "Matrix", !.k = "arr", !.e = "int", !.w = 32, !.cnt = 9, !.sz = 32, !.fl = {"hex"}],
  [FD EXCEPT !.n = "PreDefined", !.k = "arr", !.e = "int", !.w = 32, !.cnt = 6, !.sz = 32],
  [FD EXCEPT !.n = "NextTrackID", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_PcmC == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "FormatFlags", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "PCMSampleSize", !.k = "uint", !.w = 8, !.sz = 8]
>>

L_PixelAspectRatioBox == <<
  [FD EXCEPT !.n = "HSpacing", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "VSpacing", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_Pssh == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "SystemID", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 16, !.sz = 8, !.fl = {"uuid"}],
  [FD EXCEPT !.n = "KIDCount", !.k = "uint", !.w = 32, !.sz = 32, !.nver = 0],
  [FD EXCEPT !.n = "KIDs", !.k = "slice", !.e = "struct", !.sub = "PsshKID", !.sz = 128, !.ln = DYN, !.nver = 0],
  [FD EXCEPT !.n = "DataSize", !.k = "int", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Data", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.ln = DYN]
>>

L_PsshKID == <<
  [FD EXCEPT !.n = "KID", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 16, !.sz = 8, !.fl = {"uuid"}]
>>

L_RollDistanceWithLength == <<
  [FD EXCEPT !.n = "DescriptionLength", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "RollDistance", !.k = "int", !.w = 16, !.sz = 16]
>>

L_Saio == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "AuxInfoType", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 4, !.sz = 8, !.opt = 1, !.fl = {"string"}],
  [FD EXCEPT !.n = "AuxInfoTypeParameter", !.k = "uint", !.w = 32, !.sz = 32, !.opt = 1, !.fl = {"hex"}],
  [FD EXCEPT !.n = "EntryCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "OffsetV0", !.k = "slice", !.e = "uint", !.w = 32, !.sz = 32, !.ln = DYN, !.ver = 0],
  [FD EXCEPT !.n = "OffsetV1", !.k = "slice", !.e = "uint", !.w = 64, !.sz = 64, !.ln = DYN, !.nver = 0]
>>

L_Saiz == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "AuxInfoType", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 4, !.sz = 8, !.opt = 1, !.fl = {"string"}],
  [FD EXCEPT !.n = "AuxInfoTypeParameter", !.k = "uint", !.w = 32, !.sz = 32, !.opt = 1, !.fl = {"hex"}],
  [FD EXCEPT !.n = "DefaultSampleInfoSize", !.k = "uint", !.w = 8, !.sz = 8, !.fl = {"dec"}],
  [FD EXCEPT !.n = "SampleCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "SampleInfoSize", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.ln = DYN, !.dyn = TRUE, !.fl = {"dec"}]
>>

L_SampleEntry == <<
  [FD EXCEPT !.n = "Reserved", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 6, !.sz = 8, !.fl = {"const"}],
  [FD EXCEPT !.n = "DataReferenceIndex", !.k = "uint", !.w = 16, !.sz = 16]
>>

L_Sbgp == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "GroupingType", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "GroupingTypeParameter", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 1],
  [FD EXCEPT !.n = "EntryCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Entries", !.k = "slice", !.e = "struct", !.sub = "SbgpEntry", !.sz = 64, !.ln = DYN]
>>

L_SbgpEntry == <<
  [FD EXCEPT !.n = "SampleCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "GroupDescriptionIndex", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_Schi == <<
>>

L_Schm == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "SchemeType", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 4, !.sz = 8, !.fl = {"string"}],
  [FD EXCEPT !.n = "SchemeVersion", !.k = "uint", !.w = 32, !.sz = 32, !.fl = {"hex"}],
  [FD EXCEPT !.n = "SchemeUri", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.opt = 1, !.fl = {"string"}]
>>

L_Sdtp == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "Samples", !.k = "slice", !.e = "struct", !.sub = "SdtpSampleElem", !.sz = 8]
>>

L_SdtpSampleElem == <<
  [FD EXCEPT !.n = "IsLeading", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "SampleDependsOn", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "SampleIsDependedOn", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "SampleHasRedundancy", !.k = "uint", !.w = 8, !.sz = 2]
>>

L_Sgpd == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "GroupingType", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 4, !.sz = 8, !.fl = {"string"}],
  [FD EXCEPT !.n = "DefaultLength", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 1],
  [FD EXCEPT !.n = "DefaultSampleDescriptionIndex", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 2],
  [FD EXCEPT !.n = "EntryCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "RollDistances", !.k = "slice", !.e = "int", !.w = 16, !.sz = 16, !.dyn = TRUE],
  [FD EXCEPT !.n = "RollDistancesL", !.k = "slice", !.e = "struct", !.sub = "RollDistanceWithLength", !.sz = 48, !.dyn = TRUE],
  [FD EXCEPT !.n = "AlternativeStartupEntries", !.k = "slice", !.e = "struct", !.sub = "AlternativeStartupEntry", !.sz = DYN, !.ln = DYN, !.dyn = TRUE],
  [FD EXCEPT !.n = "AlternativeStartupEntriesL", !.k = "slice", !.e = "struct", !.sub = "AlternativeStartupEntryL", !.ln = DYN, !.dyn = TRUE],
  [FD EXCEPT !.n = "VisualRandomAccessEntries", !.k = "slice", !.e = "struct", !.sub = "VisualRandomAccessEntry", !.ln = DYN, !.dyn = TRUE],
  [FD EXCEPT !.n = "VisualRandomAccessEntriesL", !.k = "slice", !.e = "struct", !.sub = "VisualRandomAccessEntryL", !.ln = DYN, !.dyn = TRUE],
  [FD EXCEPT !.n = "TemporalLevelEntries", !.k = "slice", !.e = "struct", !.sub = "TemporalLevelEntry", !.ln = DYN, !.dyn = TRUE],
  [FD EXCEPT !.n = "TemporalLevelEntriesL", !.k = "slice", !.e = "struct", !.sub = "TemporalLevelEntryL", !.ln = DYN, !.dyn = TRUE],
  [FD EXCEPT !.n = "Unsupported", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.dyn = TRUE]
>>

L_Sidx == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "ReferenceID", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Timescale", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "EarliestPresentationTimeV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "FirstOffsetV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "EarliestPresentationTimeV1", !.k = "uint", !.w = 64, !.sz = 64, !.nver = 0],
  [FD EXCEPT !.n = "FirstOffsetV1", !.k = "uint", !.w = 64, !.sz = 64, !.nver = 0],
  [FD EXCEPT !.n = "Reserved", !.k = "uint", !.w = 16, !.sz = 16, !.fl = {"const"}],
  [FD EXCEPT !.n = "ReferenceCount", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "References", !.k = "slice", !.e = "struct", !.sub = "SidxReference", !.sz = 96, !.ln = DYN]
>>

L_SidxReference == <<
  [FD EXCEPT !.n = "ReferenceType", !.k = "bool", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "ReferencedSize", !.k = "uint", !.w = 32, !.sz = 31],
  [FD EXCEPT !.n = "SubsegmentDuration", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "StartsWithSAP", !.k = "bool", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "SAPType", !.k = "uint", !.w = 32, !.sz = 3],
  [FD EXCEPT !.n = "SAPDeltaTime", !.k = "uint", !.w = 32, !.sz = 28]
>>

L_Sinf == <<
>>

L_Skip == <<
  [FD EXCEPT !.n = "Data", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8]
>>

L_Smhd == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "Balance", !.k = "int", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "Reserved", !.k = "uint", !.w = 16, !.sz = 16, !.fl = {"const"}]
>>

L_Stbl == <<
>>

L_Stco == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "EntryCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "ChunkOffset", !.k = "slice", !.e = "uint", !.w = 32, !.sz = 32, !.ln = DYN]
>>

L_StringData == <<
  [FD EXCEPT !.n = "Data", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8]
>>

L_Stsc == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "EntryCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Entries", !.k = "slice", !.e = "struct", !.sub = "StscEntry", !.sz = 96, !.ln = DYN]
>>

L_StscEntry == <<
  [FD EXCEPT !.n = "FirstChunk", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "SamplesPerChunk", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "SampleDescriptionIndex", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_Stsd == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "EntryCount", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_Stss == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "EntryCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "SampleNumber", !.k = "slice", !.e = "uint", !.w = 32, !.sz = 32, !.ln = DYN]
>>

L_Stsz == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "SampleSize", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "SampleCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "EntrySize", !.k = "slice", !.e = "uint", !.w = 32, !.sz = 32, !.ln = DYN]
>>

L_Stts == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "EntryCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Entries", !.k = "slice", !.e = "struct", !.sub = "SttsEntry", !.sz = 64, !.ln = DYN]
>>

L_SttsEntry == <<
  [FD EXCEPT !.n = "SampleCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "SampleDelta", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_Styp == <<
  [FD EXCEPT !.n = "MajorBrand", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 4, !.sz = 8, !.fl = {"string"}],
  [FD EXCEPT !.n = "MinorVersion", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "CompatibleBrands", !.k = "slice", !.e = "struct", !.sub = "CompatibleBrandElem", !.sz = 32]
>>

L_TemporalLevelEntry == <<
  [FD EXCEPT !.n = "LevelIndependentlyDecodable", !.k = "bool", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "Reserved", !.k = "uint", !.w = 8, !.sz = 7, !.fl = {"const"}]
>>

L_TemporalLevelEntryL == <<
  [FD EXCEPT !.n = "DescriptionLength", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "TemporalLevelEntry", !.k = "struct", !.sub = "TemporalLevelEntry", !.fl = {"extend"}]
>>

L_Tenc == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "Reserved", !.k = "uint", !.w = 8, !.sz = 8, !.fl = {"dec"}],
  [FD EXCEPT !.n = "DefaultCryptByteBlock", !.k = "uint", !.w = 8, !.sz = 4, !.fl = {"dec"}],
  [FD EXCEPT !.n = "DefaultSkipByteBlock", !.k = "uint", !.w = 8, !.sz = 4, !.fl = {"dec"}],
  [FD EXCEPT !.n = "DefaultIsProtected", !.k = "uint", !.w = 8, !.sz = 8, !.fl = {"dec"}],
  [FD EXCEPT !.n = "DefaultPerSampleIVSize", !.k = "uint", !.w = 8, !.sz = 8, !.fl = {"dec"}],
  [FD EXCEPT !.n = "DefaultKID", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 16, !.sz = 8, !.fl = {"uuid"}],
  [FD EXCEPT !.n = "DefaultConstantIVSize", !.k = "uint", !.w = 8, !.sz = 8, !.dyn = TRUE, !.fl = {"dec"}],
  [FD EXCEPT !.n = "DefaultConstantIV", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.ln = DYN, !.dyn = TRUE]
>>

L_TextSubtitleSampleEntry == <<
  [FD EXCEPT !.n = "SampleEntry", !.k = "struct", !.sub = "SampleEntry", !.fl = {"extend"}],
  [FD EXCEPT !.n = "ContentEncoding", !.k = "str", !.fl = {"string"}],
  [FD EXCEPT !.n = "MIMEFormat", !.k = "str", !.fl = {"string"}]
>>

L_Tfdt == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "BaseMediaDecodeTimeV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "BaseMediaDecodeTimeV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1]
>>

L_Tfhd == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "TrackID", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "BaseDataOffset", !.k = "uint", !.w = 64, !.sz = 64, !.opt = 1],
  [FD EXCEPT !.n = "SampleDescriptionIndex", !.k = "uint", !.w = 32, !.sz = 32, !.opt = 2],
  [FD EXCEPT !.n = "DefaultSampleDuration", !.k = "uint", !.w = 32, !.sz = 32, !.opt = 8],
  [FD EXCEPT !.n = "DefaultSampleSize", !.k = "uint", !.w = 32, !.sz = 32, !.opt = 16],
  [FD EXCEPT !.n = "DefaultSampleFlags", !.k = "uint", !.w = 32, !.sz = 32, !.opt = 32, !.fl = {"hex"}]
>>

L_Tfra == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "TrackID", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Reserved", !.k = "uint", !.w = 32, !.sz = 26, !.fl = {"const"}],
  [FD EXCEPT !.n = "LengthSizeOfTrafNum", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "LengthSizeOfTrunNum", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "LengthSizeOfSampleNum", !.k = "uint", !.w = 8, !.sz = 2],
  [FD EXCEPT !.n = "NumberOfEntry", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Entries", !.k = "slice", !.e = "struct", !.sub = "TfraEntry", !.sz = DYN, !.ln = DYN]
>>

L_TfraEntry == <<
  [FD EXCEPT !.n = "TimeV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "MoofOffsetV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "TimeV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "MoofOffsetV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "TrafNumber", !.k = "uint", !.w = 32, !.sz = DYN],
  [FD EXCEPT !.n = "TrunNumber", !.k = "uint", !.w = 32, !.sz = DYN],
  [FD EXCEPT !.n = "SampleNumber", !.k = "uint", !.w = 32, !.sz = DYN]
>>

L_Tkhd == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "CreationTimeV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "ModificationTimeV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "CreationTimeV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "ModificationTimeV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "TrackID", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Reserved0", !.k = "uint", !.w = 32, !.sz = 32, !.fl = {"const"}],
  [FD EXCEPT !.n = "DurationV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0],
  [FD EXCEPT !.n = "DurationV1", !.k = "uint", !.w = 64, !.sz = 64, !.ver = 1],
  [FD EXCEPT !.n = "Reserved1", !.k = "arr", !.e = "uint", !.w = 32, !.cnt = 2, !.sz = 32, !.fl = {"const"}],
  [FD EXCEPT !.n = "Layer", !.k = "int", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "AlternateGroup", !.k = "int", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "Volume", !.k = "int", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "Reserved2", !.k = "uint", !.w = 16, !.sz = 16, !.fl = {"const"}],
  [FD EXCEPT !.n = "Matrix", !.k = "arr", !.e = "int", !.w = 32, !.cnt = 9, !.sz = 32, !.fl = {"hex"}],
  [FD EXCEPT !.n = "Width", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Height", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_Traf == <<
>>

L_Trak == <<
>>

L_Trep == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "TrackID", !.k = "uint", !.w = 32, !.sz = 32]
>>

L_Trex == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "TrackID", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "DefaultSampleDescriptionIndex", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "DefaultSampleDuration", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "DefaultSampleSize", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "DefaultSampleFlags", !.k = "uint", !.w = 32, !.sz = 32, !.fl = {"hex"}]
>>

L_Trun == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "SampleCount", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "DataOffset", !.k = "int", !.w = 32, !.sz = 32, !.opt = 1],
  [FD EXCEPT !.n = "FirstSampleFlags", !.k = "uint", !.w = 32, !.sz = 32, !.opt = 4, !.fl = {"hex"}],
  [FD EXCEPT !.n = "Entries", !.k = "slice", !.e = "struct", !.sub = "TrunEntry", !.sz = DYN, !.ln = DYN]
>>

L_TrunEntry == <<
  [FD EXCEPT !.n = "SampleDuration", !.k = "uint", !.w = 32, !.sz = 32, !.opt = 256],
  [FD EXCEPT !.n = "SampleSize", !.k = "uint", !.w = 32, !.sz = 32, !.opt = 512],
  [FD EXCEPT !.n = "SampleFlags", !.k = "uint", !.w = 32, !.sz = 32, !.opt = 1024, !.fl = {"hex"}],
  [FD EXCEPT !.n = "SampleCompositionTimeOffsetV0", !.k = "uint", !.w = 32, !.sz = 32, !.ver = 0, !.opt = 2048],
  [FD EXCEPT !.n = "SampleCompositionTimeOffsetV1", !.k = "int", !.w = 32, !.sz = 32, !.nver = 0, !.opt = 2048]
>>

L_Udta == <<
>>

L_Udta3GppString == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "Pad", !.k = "bool", !.w = 8, !.sz = 1, !.fl = {"hidden"}],
  [FD EXCEPT !.n = "Language", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 3, !.sz = 5, !.fl = {"iso"}],
  [FD EXCEPT !.n = "Data", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.fl = {"string"}]
>>

L_Url == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "Location", !.k = "str", !.nopt = 1, !.fl = {"string"}]
>>

L_Urn == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "Name", !.k = "str", !.nopt = 1, !.fl = {"string"}],
  [FD EXCEPT !.n = "Location", !.k = "str", !.nopt = 1, !.fl = {"string"}]
>>

L_VTTAdditionalTextBox == <<
  [FD EXCEPT !.n = "CueAdditionalText", !.k = "str", !.fl = {"boxstring"}]
>>

L_VTTCueBox == <<
>>

L_VTTEmptyCueBox == <<
>>

L_VisualRandomAccessEntry == <<
  [FD EXCEPT !.n = "NumLeadingSamplesKnown", !.k = "bool", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "NumLeadingSamples", !.k = "uint", !.w = 8, !.sz = 7]
>>

L_VisualRandomAccessEntryL == <<
  [FD EXCEPT !.n = "DescriptionLength", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "VisualRandomAccessEntry", !.k = "struct", !.sub = "VisualRandomAccessEntry", !.fl = {"extend"}]
>>

L_VisualSampleEntry == <<
  [FD EXCEPT !.n = "SampleEntry", !.k = "struct", !.sub = "SampleEntry", !.fl = {"extend"}],
  [FD EXCEPT !.n = "PreDefined", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "Reserved", !.k = "uint", !.w = 16, !.sz = 16, !.fl = {"const"}],
  [FD EXCEPT !.n = "PreDefined2", !.k = "arr", !.e = "uint", !.w = 32, !.cnt = 3, !.sz = 32],
  [FD EXCEPT !.n = "Width", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "Height", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "Horizresolution", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Vertresolution", !.k = "uint", !.w = 32, !.sz = 32],
  [FD EXCEPT !.n = "Reserved2", !.k = "uint", !.w = 32, !.sz = 32, !.fl = {"const"}],
  [FD EXCEPT !.n = "FrameCount", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "Compressorname", !.k = "arr", !.e = "uint", !.w = 8, !.cnt = 32, !.sz = 8],
  [FD EXCEPT !.n = "Depth", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "PreDefined3", !.k = "int", !.w = 16, !.sz = 16]
>>

L_Vmhd == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "Graphicsmode", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "Opcolor", !.k = "arr", !.e = "uint", !.w = 16, !.cnt = 3, !.sz = 16]
>>

L_VpcC == <<
  [FD EXCEPT !.n = "FullBox", !.k = "struct", !.sub = "FullBox", !.fl = {"extend"}],
  [FD EXCEPT !.n = "Profile", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "Level", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "BitDepth", !.k = "uint", !.w = 8, !.sz = 4],
  [FD EXCEPT !.n = "ChromaSubsampling", !.k = "uint", !.w = 8, !.sz = 3],
  [FD EXCEPT !.n = "VideoFullRangeFlag", !.k = "uint", !.w = 8, !.sz = 1],
  [FD EXCEPT !.n = "ColourPrimaries", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "TransferCharacteristics", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "MatrixCoefficients", !.k = "uint", !.w = 8, !.sz = 8],
  [FD EXCEPT !.n = "CodecInitializationDataSize", !.k = "uint", !.w = 16, !.sz = 16],
  [FD EXCEPT !.n = "CodecInitializationData", !.k = "slice", !.e = "uint", !.w = 8, !.sz = 8, !.ln = DYN]
>>

L_WVTTSampleEntry == <<
  [FD EXCEPT !.n = "SampleEntry", !.k = "struct", !.sub = "SampleEntry", !.fl = {"extend"}]
>>

L_Wave == <<
>>

L_WebVTTConfigurationBox == <<
  [FD EXCEPT !.n = "Config", !.k = "str", !.fl = {"boxstring"}]
>>

L_WebVTTSourceLabelBox == <<
  [FD EXCEPT !.n = "SourceLabel", !.k = "str", !.fl = {"boxstring"}]
>>

L_XMLSubtitleSampleEntry == <<
  [FD EXCEPT !.n = "SampleEntry", !.k = "struct", !.sub = "SampleEntry", !.fl = {"extend"}],
  [FD EXCEPT !.n = "Namespace", !.k = "str", !.fl = {"string"}],
  [FD EXCEPT !.n = "SchemaLocation", !.k = "str", !.fl = {"string"}],
  [FD EXCEPT !.n = "AuxiliaryMIMETypes", !.k = "str", !.fl = {"string"}]
>>

BuiltinLayout == [
  AVCDecoderConfiguration |-> L_AVCDecoderConfiguration,
  AVCParameterSet |-> L_AVCParameterSet,
  AlternativeStartupEntry |-> L_AlternativeStartupEntry,
  AlternativeStartupEntryL |-> L_AlternativeStartupEntryL,
  AlternativeStartupEntryOpt |-> L_AlternativeStartupEntryOpt,
  AudioSampleEntry |-> L_AudioSampleEntry,
  Av1C |-> L_Av1C,
  Btrt |-> L_Btrt,
  Co64 |-> L_Co64,
  Colr |-> L_Colr,
  CompatibleBrandElem |-> L_CompatibleBrandElem,
  Cslg |-> L_Cslg,
  Ctts |-> L_Ctts,
  CttsEntry |-> L_CttsEntry,
  CueIDBox |-> L_CueIDBox,
  CuePayloadBox |-> L_CuePayloadBox,
  CueSettingsBox |-> L_CueSettingsBox,
  CueSourceIDBox |-> L_CueSourceIDBox,
  CueTimeBox |-> L_CueTimeBox,
  DOps |-> L_DOps,
  Dac3 |-> L_Dac3,
  Data |-> L_Data,
  DecoderConfigDescriptor |-> L_DecoderConfigDescriptor,
  Descriptor |-> L_Descriptor,
  Dinf |-> L_Dinf,
  Dref |-> L_Dref,
  ESDescriptor |-> L_ESDescriptor,
  Edts |-> L_Edts,
  Elst |-> L_Elst,
  ElstEntry |-> L_ElstEntry,
  Emsg |-> L_Emsg,
  Esds |-> L_Esds,
  Fiel |-> L_Fiel,
  Free |-> L_Free,
  Frma |-> L_Frma,
  Ftyp |-> L_Ftyp,
  FullBox |-> L_FullBox,
  HEVCNalu |-> L_HEVCNalu,
  HEVCNaluArray |-> L_HEVCNaluArray,
  Hdlr |-> L_Hdlr,
  HvcC |-> L_HvcC,
  Ilst |-> L_Ilst,
  IlstMetaContainer |-> L_IlstMetaContainer,
  Item |-> L_Item,
  Key |-> L_Key,
  Keys |-> L_Keys,
  Mdat |-> L_Mdat,
  Mdhd |-> L_Mdhd,
  Mdia |-> L_Mdia,
  Mehd |-> L_Mehd,
  Meta |-> L_Meta,
  Mfhd |-> L_Mfhd,
  Mfra |-> L_Mfra,
  Mfro |-> L_Mfro,
  Minf |-> L_Minf,
  Moof |-> L_Moof,
  Moov |-> L_Moov,
  Mvex |-> L_Mvex,
  Mvhd |-> L_Mvhd,
  PcmC |-> L_PcmC,
  PixelAspectRatioBox |-> L_PixelAspectRatioBox,
  Pssh |-> L_Pssh,
  PsshKID |-> L_PsshKID,
  RollDistanceWithLength |-> L_RollDistanceWithLength,
  Saio |-> L_Saio,
  Saiz |-> L_Saiz,
  SampleEntry |-> L_SampleEntry,
  Sbgp |-> L_Sbgp,
  SbgpEntry |-> L_SbgpEntry,
  Schi |-> L_Schi,
  Schm |-> L_Schm,
  Sdtp |-> L_Sdtp,
  SdtpSampleElem |-> L_SdtpSampleElem,
  Sgpd |-> L_Sgpd,
  Sidx |-> L_Sidx,
  SidxReference |-> L_SidxReference,
  Sinf |-> L_Sinf,
  Skip |-> L_Skip,
  Smhd |-> L_Smhd,
  Stbl |-> L_Stbl,
  Stco |-> L_Stco,
  StringData |-> L_StringData,
  Stsc |-> L_Stsc,
  StscEntry |-> L_StscEntry,
  Stsd |-> L_Stsd,
  Stss |-> L_Stss,
  Stsz |-> L_Stsz,
  Stts |-> L_Stts,
  SttsEntry |-> L_SttsEntry,
  Styp |-> L_Styp,
  TemporalLevelEntry |-> L_TemporalLevelEntry,
  TemporalLevelEntryL |-> L_TemporalLevelEntryL,
  Tenc |-> L_Tenc,
  TextSubtitleSampleEntry |-> L_TextSubtitleSampleEntry,
  Tfdt |-> L_Tfdt,
  Tfhd |-> L_Tfhd,
  Tfra |-> L_Tfra,
  TfraEntry |-> L_TfraEntry,
  Tkhd |-> L_Tkhd,
  Traf |-> L_Traf,
  Trak |-> L_Trak,
  Trep |-> L_Trep,
  Trex |-> L_Trex,
  Trun |-> L_Trun,
  TrunEntry |-> L_TrunEntry,
  Udta |-> L_Udta,
  Udta3GppString |-> L_Udta3GppString,
  Url |-> L_Url,
  Urn |-> L_Urn,
  VTTAdditionalTextBox |-> L_VTTAdditionalTextBox,
  VTTCueBox |-> L_VTTCueBox,
  VTTEmptyCueBox |-> L_VTTEmptyCueBox,
  VisualRandomAccessEntry |-> L_VisualRandomAccessEntry,
  VisualRandomAccessEntryL |-> L_VisualRandomAccessEntryL,
  VisualSampleEntry |-> L_VisualSampleEntry,
  Vmhd |-> L_Vmhd,
  VpcC |-> L_VpcC,
  WVTTSampleEntry |-> L_WVTTSampleEntry,
  Wave |-> L_Wave,
  WebVTTConfigurationBox |-> L_WebVTTConfigurationBox,
  WebVTTSourceLabelBox |-> L_WebVTTSourceLabelBox,
  XMLSubtitleSampleEntry |-> L_XMLSubtitleSampleEntry
]

=============================================================================
