"""C22 accessors: version and flags, brands, getters, box types."""
import json
from common import tier, seed
from p_codec import cases

QUICK = tier() == "quick"
FTYP = dict(MajorBrand=[105, 115, 111, 109], MinorVersion=[0, 0, 0, 0, 0, 0, 2, 0])
# a type for every layout with getters
TYPES = {"AudioSampleEntry": b"mp4a", "XMLSubtitleSampleEntry": b"stpp"}


def mask(r):
    m = r.rnd.choice([0, 1, 0x20000, 0x800000, 0xFFFFFF, 0xFFFFFFFF, 0x01000000, 0x80000001, 1 << r.rnd.randrange(32),
                      r.rnd.randrange(2**24), r.rnd.randrange(2**32), 0x000100 | 1 << r.rnd.randrange(32)])
    return list(m.to_bytes(4, "big"))


def ops(r, n):
    out = []
    for _ in range(n):
        o = r.rnd.choice(["set", "add", "add", "remove", "remove", "get", "check", "check", "setv", "getv"])
        out.append(dict(op=o, x=[0, 0, 0, r.rnd.randrange(256)] if o == "setv" else mask(r)))
    return out


def ftyp(bs):
    return dict(FTYP, CompatibleBrands=[{"CompatibleBrand": list(b)} for b in bs])


def words(r):
    out = b""
    for _ in range(r.rnd.randrange(6)):
        out += r.rnd.choice([b"", b" ", b"  ", b"\t", b"\n", b"\r\n", b" \x0b\x0c"])
        out += r.rnd.choice([b"http://www.w3.org/ns/ttml", b"a", b"image/png", b"\x01", b"x\x1fy", b"zz", b""])
    return list(out + r.rnd.choice([b"", b" ", b"\x00"]))


def C22(r):
    # every transition of the small system
    ts = sorted(r.gen("MAccess", {}), key=json.dumps)
    full = dict(FullBox=None, EntryCount=[0] * 8, Entries=[])
    zero = dict(qt=False, keys=0, wave=False, ilst=False, ilstmeta=False, ilstfree=False, udta=False)
    cmds = []
    for t in ts:
        if t["kind"] == "flags":
            s = t["from"]
            if s["full"]:
                v = dict(full, FullBox={"Version": [0] * 7 + [s["ver"]], "Flags": s["flags"]})
                cmds.append(dict(op="flags", type=list(b"ctts"), ctx=zero, v=v,
                                 ops=[dict(op=t["op"], x=t["x"]), dict(op="get", x=t["x"]), dict(op="check", x=t["x"])]))
            else:
                cmds.append(dict(op="flags", type=list(b"frma"), ctx=zero, v=dict(DataFormat=[1, 2, 3, 4]),
                                 ops=[dict(op=t["op"], x=t["x"])]))
        else:
            cmds.append(dict(op="brands", v=ftyp(t["from"]),
                             ops=[dict(op="bhas", x=t["x"]), dict(op=t["op"], x=t["x"]), dict(op="bhas", x=t["x"])]))
    r.conform("JAccess", cmds, "an operation on flags or brands leaves another state than specified")

    # histories on boxes of every type
    for b in range(1 if QUICK else 10):
        cmds = []
        for c in cases(r, 350, 1, 113 + b):
            cmds.append(dict(op="flags", type=c["type"], ctx=c["ctx"], v=c["v"], ops=ops(r, r.rnd.choice([2, 6, 12]))))
        for _ in range(400):
            names = [list(r.rnd.randbytes(4)) for _ in range(r.rnd.randrange(1, 6))]
            if r.rnd.random() < 0.5:
                x = names[0]
                names += [x[:k] + [(x[k] + 1) % 256] + x[k + 1:] for k in range(4)]
            bs = [r.rnd.choice(names) for _ in range(r.rnd.choice([0, 1, 3, 9]))]
            cmds.append(dict(op="brands", v=ftyp(bs), ops=[
                dict(op=r.rnd.choice(["bhas", "badd", "badd", "bremove", "bremove"]), x=r.rnd.choice(names))
                for _ in range(r.rnd.choice([1, 4, 10]))]))
        r.conform("JAccess", cmds, "a history of flag or brand operations ends in another state than specified")

        # getters
        cmds = []
        for c in r.gen("GenAccess", {"GEN_COUNT": 1500, "GEN_SALT": seed() * 19 + b}):
            v = c["v"]
            if c["layout"] == "XMLSubtitleSampleEntry":
                for k in ("Namespace", "SchemaLocation", "AuxiliaryMIMETypes"):
                    if r.rnd.random() < 0.8:
                        v[k] = words(r)
            cmds.append(dict(op="gets", layout=c["layout"], type=list(TYPES.get(c["layout"], c["layout"].lower().encode())),
                             v=v, n=c["n"]))
        r.conform("JAccess", cmds, "a getter gives another value than the stored field")

        # box types
        cmds = [dict(op="brandnames")]
        for _ in range(600):
            a = [r.rnd.choice([0, 1, 0x1f, 0x20, 0x41, 0x7e, 0x7f, 0x80, 0xa8, 0xa9, 0xaa, 0xff]) if r.rnd.random() < 0.5
                 else r.rnd.randrange(32, 127) for _ in range(4)]
            a = r.rnd.choice([a, a, a, [0, 0, 0, 0], [0xa9, 0x20, 0x7e, 0xa9], list(r.rnd.randbytes(4))])
            k = r.rnd.randrange(4)
            d = r.rnd.choice([a, [0, 0, 0, 0], list(r.rnd.randbytes(4)), a[:k] + [(a[k] + 1) % 256] + a[k + 1:],
                              a[:k] + [0] + a[k + 1:]])
            cmds.append(dict(op="boxtype", a=a, b=d, s=r.rnd.choice([a, a[:3], [], a + [65], [65] * 8])))
        r.conform("JAccess", cmds, "a box type as text or from a number is not as specified")
