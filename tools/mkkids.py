#!/usr/bin/env python3
"""Writes spec/Kids.tla: which boxes are usually found in which."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = {
    "root": "ftyp moov moof mdat free skip emsg sidx meta mfra pssh styp uuid wide udta",
    "moov": "mvhd trak trak mvex udta meta pssh iods",
    "trak": "tkhd mdia edts meta udta tref",
    "mdia": "mdhd hdlr minf",
    "minf": "vmhd smhd dinf stbl hdlr",
    "stbl": "stsd stts ctts stsc stsz stco co64 stss cslg sgpd sbgp saio saiz",
    "stsd": "avc1 mp4a encv enca hvc1 hev1 Opus av01 vp09 wvtt ac-3 stpp sbtl",
    "avc1": "avcC btrt pasp colr fiel", "encv": "avcC sinf", "hvc1": "hvcC", "hev1": "hvcC colr",
    "av01": "av1C", "vp09": "vpcC", "vp08": "vpcC", "wvtt": "vttC vlab btrt",
    "mp4a": "esds wave btrt", "enca": "esds sinf", "Opus": "dOps", "ac-3": "dac3", "fpcm": "pcmC", "ipcm": "pcmC",
    "wave": "frma mp4a esds fiel wave", "sinf": "frma schm schi", "schi": "tenc", "dinf": "dref", "dref": "url  urn ",
    "edts": "elst", "udta": "cprt titl auth dscp perf gnre loci meta hnti name",
    "meta": "hdlr keys ilst free idat", "moof": "mfhd traf traf pssh", "traf": "tfhd tfdt trun trun sbgp sgpd saiz saio uuid",
    "mvex": "mehd trex trex trep", "mfra": "tfra mfro", "trep": "cslg ludt",
    "vttc": "vsid iden ctim sttg payl", "vtte": "payl",
    "ilst": "---- \xa9nam \xa9ART aART covr trkn gnre cprt \0\0\0\1 \0\0\0\2 \0\0\0\3 \0\0\1\0 name ilst",
    "----": "mean name data data", "\xa9nam": "data \xa9nam", "aART": "data", "covr": "data data", "trkn": "data",
}
def tup(s):
    return "<<%s>>" % ",".join(str(ord(c)) for c in s)
def split(s):
    out, i = [], 0
    while i < len(s):
        out.append(s[i:i + 4])
        i += 5
    return out
rows = []
for k, v in K.items():
    if k == "root":
        continue
    rows.append("  [] t = %s -> <<%s>>  \\* %s" % (tup(k), ", ".join(map(tup, split(v))), k.replace("\xa9", "(c)")))
rows[0] = rows[0].replace("[]", "CASE", 1)
out = """-------------------------------- MODULE Kids --------------------------------
(***************************************************************************)
(* Written by tools/mkkids.py: which boxes usually occur in which.         *)
(***************************************************************************)
RootKids == <<%s>>
KidsOf(t) ==
%s
  [] OTHER -> <<>>
Containers == {%s}
=============================================================================
""" % (", ".join(map(tup, split(K["root"]))), "\n".join(rows), ", ".join(tup(k) for k in K if k != "root"))
open(os.path.join(HERE, "spec", "Kids.tla"), "w").write(out)
