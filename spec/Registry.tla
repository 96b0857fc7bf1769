------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Which structure a box type denotes in which context, and which versions *)
(* of it are supported (empty set: all versions).  A later entry takes     *)
(* precedence over an earlier one for the same type.                       *)
(*                                                                         *)
(* A context is a record                                                   *)
(*   [qt, wave, ilst, ilstmeta, ilstfree, udta : BOOLEAN, keys : Int]      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

R(type, layout, versions, pred) ==
  [type |-> type, layout |-> layout, versions |-> versions, pred |-> pred]

BuiltinRegistry == <<
R(<<45,45,45,45>>, "IlstMetaContainer", {}, "ilstItem"), \* ----
  R(<<79,112,117,115>>, "AudioSampleEntry", {}, "always"), \* Opus
  R(<<97,65,82,84>>, "IlstMetaContainer", {}, "ilstItem"), \* aART
  R(<<97,99,45,51>>, "AudioSampleEntry", {}, "always"), \* ac-3
  R(<<97,107,73,68>>, "IlstMetaContainer", {}, "ilstItem"), \* akID
  R(<<97,112,73,68>>, "IlstMetaContainer", {}, "ilstItem"), \* apID
  R(<<97,116,73,68>>, "IlstMetaContainer", {}, "ilstItem"), \* atID
  R(<<97,117,116,104>>, "Udta3GppString", {0}, "underUdta"), \* auth
  R(<<97,118,48,49>>, "VisualSampleEntry", {}, "always"), \* av01
  R(<<97,118,49,67>>, "Av1C", {}, "always"), \* av1C
  R(<<97,118,99,49>>, "VisualSampleEntry", {}, "always"), \* avc1
  R(<<97,118,99,67>>, "AVCDecoderConfiguration", {}, "always"), \* avcC
  R(<<98,116,114,116>>, "Btrt", {0}, "always"), \* btrt
  R(<<99,109,73,68>>, "IlstMetaContainer", {}, "ilstItem"), \* cmID
  R(<<99,110,73,68>>, "IlstMetaContainer", {}, "ilstItem"), \* cnID
  R(<<99,111,54,52>>, "Co64", {0}, "always"), \* co64
  R(<<99,111,108,114>>, "Colr", {}, "always"), \* colr
  R(<<99,111,118,114>>, "IlstMetaContainer", {}, "ilstItem"), \* covr
  R(<<99,112,105,108>>, "IlstMetaContainer", {}, "ilstItem"), \* cpil
  R(<<99,112,114,116>>, "Udta3GppString", {0}, "underUdta"), \* cprt
  R(<<99,112,114,116>>, "IlstMetaContainer", {}, "ilstItem"), \* cprt
  R(<<99,115,108,103>>, "Cslg", {0, 1}, "always"), \* cslg
  R(<<99,116,105,109>>, "CueTimeBox", {}, "always"), \* ctim
  R(<<99,116,116,115>>, "Ctts", {0, 1}, "always"), \* ctts
  R(<<100,79,112,115>>, "DOps", {}, "always"), \* dOps
  R(<<100,97,99,51>>, "Dac3", {}, "always"), \* dac3
  R(<<100,97,116,97>>, "Data", {}, "underIlstMeta"), \* data
  R(<<100,101,115,99>>, "IlstMetaContainer", {}, "ilstItem"), \* desc
  R(<<100,105,110,102>>, "Dinf", {}, "always"), \* dinf
  R(<<100,105,115,107>>, "IlstMetaContainer", {}, "ilstItem"), \* disk
  R(<<100,114,101,102>>, "Dref", {0}, "always"), \* dref
  R(<<100,115,99,112>>, "Udta3GppString", {0}, "underUdta"), \* dscp
  R(<<101,100,116,115>>, "Edts", {}, "always"), \* edts
  R(<<101,103,105,100>>, "IlstMetaContainer", {}, "ilstItem"), \* egid
  R(<<101,108,115,116>>, "Elst", {0, 1}, "always"), \* elst
  R(<<101,109,115,103>>, "Emsg", {0, 1}, "always"), \* emsg
  R(<<101,110,99,97>>, "AudioSampleEntry", {}, "always"), \* enca
  R(<<101,110,99,118>>, "VisualSampleEntry", {}, "always"), \* encv
  R(<<101,115,100,115>>, "Esds", {0}, "always"), \* esds
  R(<<102,105,101,108>>, "Fiel", {}, "always"), \* fiel
  R(<<102,112,99,109>>, "AudioSampleEntry", {}, "always"), \* fpcm
  R(<<102,114,101,101>>, "Free", {}, "always"), \* free
  R(<<102,114,109,97>>, "Frma", {}, "always"), \* frma
  R(<<102,116,121,112>>, "Ftyp", {}, "always"), \* ftyp
  R(<<103,101,73,68>>, "IlstMetaContainer", {}, "ilstItem"), \* geID
  R(<<103,110,114,101>>, "Udta3GppString", {0}, "underUdta"), \* gnre
  R(<<103,110,114,101>>, "IlstMetaContainer", {}, "ilstItem"), \* gnre
  R(<<104,100,108,114>>, "Hdlr", {0}, "always"), \* hdlr
  R(<<104,101,118,49>>, "VisualSampleEntry", {}, "always"), \* hev1
  R(<<104,118,99,49>>, "VisualSampleEntry", {}, "always"), \* hvc1
  R(<<104,118,99,67>>, "HvcC", {}, "always"), \* hvcC
  R(<<105,100,101,110>>, "CueIDBox", {}, "always"), \* iden
  R(<<105,108,115,116>>, "Ilst", {}, "always"), \* ilst
  R(<<105,112,99,109>>, "AudioSampleEntry", {}, "always"), \* ipcm
  R(<<107,101,121,115>>, "Keys", {}, "always"), \* keys
  R(<<109,100,97,116>>, "Mdat", {}, "always"), \* mdat
  R(<<109,100,104,100>>, "Mdhd", {0, 1}, "always"), \* mdhd
  R(<<109,100,105,97>>, "Mdia", {}, "always"), \* mdia
  R(<<109,101,97,110>>, "StringData", {}, "underIlstFree"), \* mean
  R(<<109,101,104,100>>, "Mehd", {0, 1}, "always"), \* mehd
  R(<<109,101,116,97>>, "Meta", {0}, "always"), \* meta
  R(<<109,102,104,100>>, "Mfhd", {0}, "always"), \* mfhd
  R(<<109,102,114,97>>, "Mfra", {}, "always"), \* mfra
  R(<<109,102,114,111>>, "Mfro", {0}, "always"), \* mfro
  R(<<109,105,110,102>>, "Minf", {}, "always"), \* minf
  R(<<109,111,111,102>>, "Moof", {}, "always"), \* moof
  R(<<109,111,111,118>>, "Moov", {}, "always"), \* moov
  R(<<109,112,52,97>>, "AudioSampleEntry", {}, "always"), \* mp4a
  R(<<109,112,52,118>>, "VisualSampleEntry", {}, "always"), \* mp4v
  R(<<109,118,101,120>>, "Mvex", {}, "always"), \* mvex
  R(<<109,118,104,100>>, "Mvhd", {0, 1}, "always"), \* mvhd
  R(<<110,97,109,101>>, "StringData", {}, "underIlstFree"), \* name
  R(<<112,97,115,112>>, "PixelAspectRatioBox", {}, "always"), \* pasp
  R(<<112,97,121,108>>, "CuePayloadBox", {}, "always"), \* payl
  R(<<112,99,109,67>>, "PcmC", {0, 1}, "always"), \* pcmC
  R(<<112,99,115,116>>, "IlstMetaContainer", {}, "ilstItem"), \* pcst
  R(<<112,101,114,102>>, "Udta3GppString", {0}, "underUdta"), \* perf
  R(<<112,103,97,112>>, "IlstMetaContainer", {}, "ilstItem"), \* pgap
  R(<<112,108,73,68>>, "IlstMetaContainer", {}, "ilstItem"), \* plID
  R(<<112,115,115,104>>, "Pssh", {0, 1}, "always"), \* pssh
  R(<<112,117,114,100>>, "IlstMetaContainer", {}, "ilstItem"), \* purd
  R(<<112,117,114,108>>, "IlstMetaContainer", {}, "ilstItem"), \* purl
  R(<<114,116,110,103>>, "IlstMetaContainer", {}, "ilstItem"), \* rtng
  R(<<115,97,105,111>>, "Saio", {0, 1}, "always"), \* saio
  R(<<115,97,105,122>>, "Saiz", {0}, "always"), \* saiz
  R(<<115,98,103,112>>, "Sbgp", {0, 1}, "always"), \* sbgp
  R(<<115,98,116,116>>, "TextSubtitleSampleEntry", {}, "always"), \* sbtt
  R(<<115,99,104,105>>, "Schi", {}, "always"), \* schi
  R(<<115,99,104,109>>, "Schm", {0}, "always"), \* schm
  R(<<115,100,116,112>>, "Sdtp", {0}, "always"), \* sdtp
  R(<<115,102,73,68>>, "IlstMetaContainer", {}, "ilstItem"), \* sfID
  R(<<115,103,112,100>>, "Sgpd", {1, 2}, "always"), \* sgpd
  R(<<115,105,100,120>>, "Sidx", {0, 1}, "always"), \* sidx
  R(<<115,105,110,102>>, "Sinf", {}, "always"), \* sinf
  R(<<115,107,105,112>>, "Skip", {}, "always"), \* skip
  R(<<115,109,104,100>>, "Smhd", {0}, "always"), \* smhd
  R(<<115,111,97,97>>, "IlstMetaContainer", {}, "ilstItem"), \* soaa
  R(<<115,111,97,108>>, "IlstMetaContainer", {}, "ilstItem"), \* soal
  R(<<115,111,97,114>>, "IlstMetaContainer", {}, "ilstItem"), \* soar
  R(<<115,111,99,111>>, "IlstMetaContainer", {}, "ilstItem"), \* soco
  R(<<115,111,110,109>>, "IlstMetaContainer", {}, "ilstItem"), \* sonm
  R(<<115,111,115,110>>, "IlstMetaContainer", {}, "ilstItem"), \* sosn
  R(<<115,116,98,108>>, "Stbl", {}, "always"), \* stbl
  R(<<115,116,99,111>>, "Stco", {0}, "always"), \* stco
  R(<<115,116,105,107>>, "IlstMetaContainer", {}, "ilstItem"), \* stik
  R(<<115,116,112,112>>, "XMLSubtitleSampleEntry", {}, "always"), \* stpp
  R(<<115,116,115,99>>, "Stsc", {0}, "always"), \* stsc
  R(<<115,116,115,100>>, "Stsd", {0}, "always"), \* stsd
  R(<<115,116,115,115>>, "Stss", {0}, "always"), \* stss
  R(<<115,116,115,122>>, "Stsz", {0}, "always"), \* stsz
  R(<<115,116,116,103>>, "CueSettingsBox", {}, "always"), \* sttg
  R(<<115,116,116,115>>, "Stts", {0}, "always"), \* stts
  R(<<115,116,121,112>>, "Styp", {}, "always"), \* styp
  R(<<116,101,110,99>>, "Tenc", {0, 1}, "always"), \* tenc
  R(<<116,102,100,116>>, "Tfdt", {0, 1}, "always"), \* tfdt
  R(<<116,102,104,100>>, "Tfhd", {0}, "always"), \* tfhd
  R(<<116,102,114,97>>, "Tfra", {0, 1}, "always"), \* tfra
  R(<<116,105,116,108>>, "Udta3GppString", {0}, "underUdta"), \* titl
  R(<<116,107,104,100>>, "Tkhd", {0, 1}, "always"), \* tkhd
  R(<<116,109,112,111>>, "IlstMetaContainer", {}, "ilstItem"), \* tmpo
  R(<<116,114,97,102>>, "Traf", {}, "always"), \* traf
  R(<<116,114,97,107>>, "Trak", {}, "always"), \* trak
  R(<<116,114,101,112>>, "Trep", {0}, "always"), \* trep
  R(<<116,114,101,120>>, "Trex", {0}, "always"), \* trex
  R(<<116,114,107,110>>, "IlstMetaContainer", {}, "ilstItem"), \* trkn
  R(<<116,114,117,110>>, "Trun", {0, 1}, "always"), \* trun
  R(<<116,118,101,110>>, "IlstMetaContainer", {}, "ilstItem"), \* tven
  R(<<116,118,101,115>>, "IlstMetaContainer", {}, "ilstItem"), \* tves
  R(<<116,118,110,110>>, "IlstMetaContainer", {}, "ilstItem"), \* tvnn
  R(<<116,118,115,104>>, "IlstMetaContainer", {}, "ilstItem"), \* tvsh
  R(<<116,118,115,110>>, "IlstMetaContainer", {}, "ilstItem"), \* tvsn
  R(<<117,100,116,97>>, "Udta", {}, "always"), \* udta
  R(<<117,114,108,32>>, "Url", {0}, "always"), \* url 
  R(<<117,114,110,32>>, "Urn", {0}, "always"), \* urn 
  R(<<118,108,97,98>>, "WebVTTSourceLabelBox", {}, "always"), \* vlab
  R(<<118,109,104,100>>, "Vmhd", {0}, "always"), \* vmhd
  R(<<118,112,48,56>>, "VisualSampleEntry", {}, "always"), \* vp08
  R(<<118,112,48,57>>, "VisualSampleEntry", {}, "always"), \* vp09
  R(<<118,112,99,67>>, "VpcC", {}, "always"), \* vpcC
  R(<<118,115,105,100>>, "CueSourceIDBox", {}, "always"), \* vsid
  R(<<118,116,116,67>>, "WebVTTConfigurationBox", {}, "always"), \* vttC
  R(<<118,116,116,97>>, "VTTAdditionalTextBox", {}, "always"), \* vtta
  R(<<118,116,116,99>>, "VTTCueBox", {}, "always"), \* vttc
  R(<<118,116,116,101>>, "VTTEmptyCueBox", {}, "always"), \* vtte
  R(<<119,97,118,101>>, "Wave", {}, "always"), \* wave
  R(<<119,118,116,116>>, "WVTTSampleEntry", {}, "always"), \* wvtt
  R(<<169,65,82,84>>, "IlstMetaContainer", {}, "ilstItem"), \* (c)ART
  R(<<169,97,108,98>>, "IlstMetaContainer", {}, "ilstItem"), \* (c)alb
  R(<<169,99,109,116>>, "IlstMetaContainer", {}, "ilstItem"), \* (c)cmt
  R(<<169,99,111,109>>, "IlstMetaContainer", {}, "ilstItem"), \* (c)com
  R(<<169,100,97,121>>, "IlstMetaContainer", {}, "ilstItem"), \* (c)day
  R(<<169,103,101,110>>, "IlstMetaContainer", {}, "ilstItem"), \* (c)gen
  R(<<169,103,114,112>>, "IlstMetaContainer", {}, "ilstItem"), \* (c)grp
  R(<<169,110,97,109>>, "IlstMetaContainer", {}, "ilstItem"), \* (c)nam
  R(<<169,116,111,111>>, "IlstMetaContainer", {}, "ilstItem"), \* (c)too
  R(<<169,119,114,116>>, "IlstMetaContainer", {}, "ilstItem") \* (c)wrt
>>

Accepts(pred, ctx) ==
  CASE pred = "always"        -> TRUE
    [] pred = "ilstItem"      -> ctx.ilst /\ ~ctx.ilstmeta
    [] pred = "underIlstMeta" -> ctx.ilstmeta
    [] pred = "underIlstFree" -> ctx.ilstfree
    [] pred = "underUdta"     -> ctx.udta
    [] pred = "qt"            -> ctx.qt
    [] pred = "wave"          -> ctx.wave
    [] pred = "never"         -> FALSE

CtxEmpty == [qt |-> FALSE, wave |-> FALSE, ilst |-> FALSE, ilstmeta |-> FALSE,
             ilstfree |-> FALSE, udta |-> FALSE, keys |-> 0]

\* registry positions of each type, computed once
BuiltinIdx ==
  [t \in {BuiltinRegistry[i].type : i \in DOMAIN BuiltinRegistry} |->
     SelectSeq([i \in DOMAIN BuiltinRegistry |-> i], LAMBDA i : BuiltinRegistry[i].type = t)]

NoDef == [layout |-> "", versions |-> {}]

\* the numeric value of a type, or -1 when it does not fit the model's integers
TypeNum(t) == IF t[1] > 126 THEN -1 ELSE ((t[1] * 256 + t[2]) * 256 + t[3]) * 256 + t[4]

\* Resolve against the built-in registry followed by user registrations `extra`
\* (a sequence of R records in registration order).
ResolveX(type, ctx, extra) ==
  LET ex  == SelectSeq(extra, LAMBDA r : r.type = type /\ Accepts(r.pred, ctx))
      bi  == IF type \in DOMAIN BuiltinIdx
             THEN SelectSeq(BuiltinIdx[type], LAMBDA i : Accepts(BuiltinRegistry[i].pred, ctx))
             ELSE <<>>
  IN  IF ex # <<>> THEN [layout |-> ex[Len(ex)].layout, versions |-> ex[Len(ex)].versions]
      ELSE IF bi # <<>> THEN LET r == BuiltinRegistry[bi[Len(bi)]]
                             IN  [layout |-> r.layout, versions |-> r.versions]
      ELSE IF ctx.ilst /\ TypeNum(type) >= 1 /\ TypeNum(type) <= ctx.keys
           THEN [layout |-> "Item", versions |-> {}]
      ELSE NoDef

Resolve(type, ctx) == ResolveX(type, ctx, <<>>)

Supported(type, ctx) == Resolve(type, ctx).layout # ""

\* the item types of an ilst box
IlstItemTypes == {BuiltinRegistry[i].type : i \in
                    {j \in DOMAIN BuiltinRegistry : BuiltinRegistry[j].pred = "ilstItem"}}
=============================================================================
