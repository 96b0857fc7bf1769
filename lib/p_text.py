"""C16 the text of a box."""
from common import tier, seed
from p_codec import cases, long
from p_struct import w64

QUICK = tier() == "quick"

# layouts with fixed point fields, and values at which rounding and signs matter
FIXED = {"Mvhd": ["Rate"], "Tkhd": ["Width", "Height"], "AudioSampleEntry": ["SampleRate"]}
F32 = [0, 0x10000, 0x8000, 1, 0x400, 0xC00, 0x1400, 0xFFFF, 0x18000, 0x80000000, 0x80000400, 0xFFFFFFFF, 0xFFFF8000,
       0xFFFF0000, 0x7FFFFFFF, 0xBB80 << 16, 0xFFFFFC00, 0x10001, 0x400 * 5]
F16 = [0, 0x100, 1, 16, 48, 0x80, 0xFF, 0xFF00, 0xFFFF, 0xFF80, 0x8000, 0x8001, 0xFFF0, 0xFFD0, 0x7FFF, 0x150]


def sext(x, n):
    return x - (1 << n) if x >> (n - 1) else x


def edges(r, c):
    """values of case c at the edges of the formats of its layout"""
    out = []
    v = c["v"]
    for n in FIXED.get(c["layout"], []):
        for x in F32:
            s = c["layout"] == "Mvhd"
            out.append(dict(v, **{n: w64((sext(x, 32) if s else x) % 2**64)}))
    if c["layout"] == "Smhd":
        out += [dict(v, Balance=w64(sext(x, 16) % 2**64)) for x in F16]
    if c["layout"] == "VisualSampleEntry":
        for n in (0, 1, 5, 30, 31, 32, 255):
            out.append(dict(v, Compressorname=[n] + list(v["Compressorname"][1:])))
            out.append(dict(v, Compressorname=[n] + list(b"caf\xc3\xa9 \x01 ascii, long enough...........")[:31]))
    if c["layout"] == "Data":
        out += [dict(v, DataType=w64(x)) for x in (0, 1, 2, 3, 4, 13, 14, 21, 22, 23, 24, 2**32 - 1)]
    return out


def C16(r):
    n, k = (1750, 1) if QUICK else (1750, 12)
    for b in range(k):
        cmds, seen = [], {}
        for c in cases(r, n, 3, 71 + b) + long(r, n // 24, 71 + b):
            inds = ["", r.rnd.choice(["20", "09", "2020", "2d", ""])]
            base = dict(op="str", type=c["type"], ctx=c["ctx"], inds=inds)
            cmds.append(dict(base, v=c["v"]))
            if seen.setdefault(c["layout"], 0) < 2:
                es = edges(r, c)
                if es:
                    seen[c["layout"]] += 1
                cmds += [dict(base, v=v) for v in es]
        # a type nobody registered
        cmds.append(dict(op="str", type=list(b"zzzz"), ctx=dict(c["ctx"]), v=[], inds=[""]))
        r.conform("JText", cmds, "the text of a box does not show its active fields")
