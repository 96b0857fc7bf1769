-------------------------------- MODULE Kids --------------------------------
(***************************************************************************)
(* Written by tools/mkkids.py: which boxes usually occur in which.         *)
(***************************************************************************)
RootKids == <<<<102,116,121,112>>, <<109,111,111,118>>, <<109,111,111,102>>, <<109,100,97,116>>, <<102,114,101,101>>, <<115,107,105,112>>, <<101,109,115,103>>, <<115,105,100,120>>, <<109,101,116,97>>, <<109,102,114,97>>, <<112,115,115,104>>, <<115,116,121,112>>, <<117,117,105,100>>, <<119,105,100,101>>, <<117,100,116,97>>>>
KidsOf(t) ==
  CASE t = <<109,111,111,118>> -> <<<<109,118,104,100>>, <<116,114,97,107>>, <<116,114,97,107>>, <<109,118,101,120>>, <<117,100,116,97>>, <<109,101,116,97>>, <<112,115,115,104>>, <<105,111,100,115>>>>  \* moov
  [] t = <<116,114,97,107>> -> <<<<116,107,104,100>>, <<109,100,105,97>>, <<101,100,116,115>>, <<109,101,116,97>>, <<117,100,116,97>>, <<116,114,101,102>>>>  \* trak
  [] t = <<109,100,105,97>> -> <<<<109,100,104,100>>, <<104,100,108,114>>, <<109,105,110,102>>>>  \* mdia
  [] t = <<109,105,110,102>> -> <<<<118,109,104,100>>, <<115,109,104,100>>, <<100,105,110,102>>, <<115,116,98,108>>, <<104,100,108,114>>>>  \* minf
  [] t = <<115,116,98,108>> -> <<<<115,116,115,100>>, <<115,116,116,115>>, <<99,116,116,115>>, <<115,116,115,99>>, <<115,116,115,122>>, <<115,116,99,111>>, <<99,111,54,52>>, <<115,116,115,115>>, <<99,115,108,103>>, <<115,103,112,100>>, <<115,98,103,112>>, <<115,97,105,111>>, <<115,97,105,122>>>>  \* stbl
  [] t = <<115,116,115,100>> -> <<<<97,118,99,49>>, <<109,112,52,97>>, <<101,110,99,118>>, <<101,110,99,97>>, <<104,118,99,49>>, <<104,101,118,49>>, <<79,112,117,115>>, <<97,118,48,49>>, <<118,112,48,57>>, <<119,118,116,116>>, <<97,99,45,51>>, <<115,116,112,112>>, <<115,98,116,108>>>>  \* stsd
  [] t = <<97,118,99,49>> -> <<<<97,118,99,67>>, <<98,116,114,116>>, <<112,97,115,112>>, <<99,111,108,114>>, <<102,105,101,108>>>>  \* avc1
  [] t = <<101,110,99,118>> -> <<<<97,118,99,67>>, <<115,105,110,102>>>>  \* encv
  [] t = <<104,118,99,49>> -> <<<<104,118,99,67>>>>  \* hvc1
  [] t = <<104,101,118,49>> -> <<<<104,118,99,67>>, <<99,111,108,114>>>>  \* hev1
  [] t = <<97,118,48,49>> -> <<<<97,118,49,67>>>>  \* av01
  [] t = <<118,112,48,57>> -> <<<<118,112,99,67>>>>  \* vp09
  [] t = <<118,112,48,56>> -> <<<<118,112,99,67>>>>  \* vp08
  [] t = <<119,118,116,116>> -> <<<<118,116,116,67>>, <<118,108,97,98>>, <<98,116,114,116>>>>  \* wvtt
  [] t = <<109,112,52,97>> -> <<<<101,115,100,115>>, <<119,97,118,101>>, <<98,116,114,116>>>>  \* mp4a
  [] t = <<101,110,99,97>> -> <<<<101,115,100,115>>, <<115,105,110,102>>>>  \* enca
  [] t = <<79,112,117,115>> -> <<<<100,79,112,115>>>>  \* Opus
  [] t = <<97,99,45,51>> -> <<<<100,97,99,51>>>>  \* ac-3
  [] t = <<102,112,99,109>> -> <<<<112,99,109,67>>>>  \* fpcm
  [] t = <<105,112,99,109>> -> <<<<112,99,109,67>>>>  \* ipcm
  [] t = <<119,97,118,101>> -> <<<<102,114,109,97>>, <<109,112,52,97>>, <<101,115,100,115>>, <<102,105,101,108>>, <<119,97,118,101>>>>  \* wave
  [] t = <<115,105,110,102>> -> <<<<102,114,109,97>>, <<115,99,104,109>>, <<115,99,104,105>>>>  \* sinf
  [] t = <<115,99,104,105>> -> <<<<116,101,110,99>>>>  \* schi
  [] t = <<100,105,110,102>> -> <<<<100,114,101,102>>>>  \* dinf
  [] t = <<100,114,101,102>> -> <<<<117,114,108,32>>, <<117,114,110,32>>>>  \* dref
  [] t = <<101,100,116,115>> -> <<<<101,108,115,116>>>>  \* edts
  [] t = <<117,100,116,97>> -> <<<<99,112,114,116>>, <<116,105,116,108>>, <<97,117,116,104>>, <<100,115,99,112>>, <<112,101,114,102>>, <<103,110,114,101>>, <<108,111,99,105>>, <<109,101,116,97>>, <<104,110,116,105>>, <<110,97,109,101>>>>  \* udta
  [] t = <<109,101,116,97>> -> <<<<104,100,108,114>>, <<107,101,121,115>>, <<105,108,115,116>>, <<102,114,101,101>>, <<105,100,97,116>>>>  \* meta
  [] t = <<109,111,111,102>> -> <<<<109,102,104,100>>, <<116,114,97,102>>, <<116,114,97,102>>, <<112,115,115,104>>>>  \* moof
  [] t = <<116,114,97,102>> -> <<<<116,102,104,100>>, <<116,102,100,116>>, <<116,114,117,110>>, <<116,114,117,110>>, <<115,98,103,112>>, <<115,103,112,100>>, <<115,97,105,122>>, <<115,97,105,111>>, <<117,117,105,100>>>>  \* traf
  [] t = <<109,118,101,120>> -> <<<<109,101,104,100>>, <<116,114,101,120>>, <<116,114,101,120>>, <<116,114,101,112>>>>  \* mvex
  [] t = <<109,102,114,97>> -> <<<<116,102,114,97>>, <<109,102,114,111>>>>  \* mfra
  [] t = <<116,114,101,112>> -> <<<<99,115,108,103>>, <<108,117,100,116>>>>  \* trep
  [] t = <<118,116,116,99>> -> <<<<118,115,105,100>>, <<105,100,101,110>>, <<99,116,105,109>>, <<115,116,116,103>>, <<112,97,121,108>>>>  \* vttc
  [] t = <<118,116,116,101>> -> <<<<112,97,121,108>>>>  \* vtte
  [] t = <<105,108,115,116>> -> <<<<45,45,45,45>>, <<169,110,97,109>>, <<169,65,82,84>>, <<97,65,82,84>>, <<99,111,118,114>>, <<116,114,107,110>>, <<103,110,114,101>>, <<99,112,114,116>>, <<0,0,0,1>>, <<0,0,0,2>>, <<0,0,0,3>>, <<0,0,1,0>>, <<110,97,109,101>>, <<105,108,115,116>>>>  \* ilst
  [] t = <<45,45,45,45>> -> <<<<109,101,97,110>>, <<110,97,109,101>>, <<100,97,116,97>>, <<100,97,116,97>>>>  \* ----
  [] t = <<169,110,97,109>> -> <<<<100,97,116,97>>, <<169,110,97,109>>>>  \* (c)nam
  [] t = <<97,65,82,84>> -> <<<<100,97,116,97>>>>  \* aART
  [] t = <<99,111,118,114>> -> <<<<100,97,116,97>>, <<100,97,116,97>>>>  \* covr
  [] t = <<116,114,107,110>> -> <<<<100,97,116,97>>>>  \* trkn
  [] OTHER -> <<>>
Containers == {<<109,111,111,118>>, <<116,114,97,107>>, <<109,100,105,97>>, <<109,105,110,102>>, <<115,116,98,108>>, <<115,116,115,100>>, <<97,118,99,49>>, <<101,110,99,118>>, <<104,118,99,49>>, <<104,101,118,49>>, <<97,118,48,49>>, <<118,112,48,57>>, <<118,112,48,56>>, <<119,118,116,116>>, <<109,112,52,97>>, <<101,110,99,97>>, <<79,112,117,115>>, <<97,99,45,51>>, <<102,112,99,109>>, <<105,112,99,109>>, <<119,97,118,101>>, <<115,105,110,102>>, <<115,99,104,105>>, <<100,105,110,102>>, <<100,114,101,102>>, <<101,100,116,115>>, <<117,100,116,97>>, <<109,101,116,97>>, <<109,111,111,102>>, <<116,114,97,102>>, <<109,118,101,120>>, <<109,102,114,97>>, <<116,114,101,112>>, <<118,116,116,99>>, <<118,116,116,101>>, <<105,108,115,116>>, <<45,45,45,45>>, <<169,110,97,109>>, <<97,65,82,84>>, <<99,111,118,114>>, <<116,114,107,110>>}
=============================================================================
