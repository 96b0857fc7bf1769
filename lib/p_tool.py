"""C18 mp4tool edit, C19 divide, C20 extract, dump, psshdump and probe."""
import json
from common import tier, seed
from p_struct import hx, w64, files, mutants, headers, boxes, sized, tails, to_eof
from p_probe import movies, calm, box, u32
from p_codec import cases, too_big

QUICK = tier() == "quick"


def types(f):
    return sorted({bytes(f[o + 4:o + 8]) for o, h, s, d in headers(f)})


def anywhere(f):
    """types of boxes at any depth, and some that look like it"""
    out = set(types(f))
    for k in range(4, len(f) - 3):
        t = bytes(f[k:k + 4])
        if all(97 <= c <= 122 or c in (0x2d, 0xa9) or 65 <= c <= 90 or 48 <= c <= 57 for c in t):
            out.add(t)
    return sorted(out)


def shown(t):
    """a type as the tool writes and reads it"""
    if all(32 <= c <= 126 or c == 0xa9 for c in t):
        return b"".join(b"(c)" if c == 0xa9 else bytes([c]) for c in t)
    return b"0x" + t.hex().encode()


def names(r, f, k):
    """texts of types for an option that takes a list"""
    ts = anywhere(f)
    l = [shown(r.rnd.choice(ts)) for _ in range(k)] if ts else []
    if r.rnd.random() < 0.2:
        l.append(r.rnd.choice([b"", b"moov", b"zzzz", b"mdat", b"free", b"0x00000001", b"trak", b"MOOV", b"moo", b"udta"]))
    return [list(t) for t in l if b"," not in t]


def bulky(r, f):
    """f with some hundred kilobytes in it that nobody reads"""
    f = sized(f)
    t = r.rnd.choice([b"mdat", b"mdat", b"qqqq", b"uuid"])
    size = r.rnd.choice([131072 - 8, 131072, 190001, 190001 if t == b"mdat" else 700000])   # (MaxPay)
    cut = r.rnd.choice([b[0] for b in boxes(f)] + [len(f)])
    hdr = u32(8 + size) + t
    o2 = cut + 8 + size
    return dict(len=w64(o2 + len(f) - cut), segs=[dict(o=w64(0), b=list(f[:cut] + hdr)), dict(o=w64(o2), b=list(f[cut:]))])


def inside(r, f):
    """f with something huge inside of a container"""
    f = sized(f)
    at = [b for b in boxes(f) if f[b[0] + 4:b[0] + 8] in (b"moov", b"moof", b"qqqq") and f[b[0]:b[0] + 4] != b"\0\0\0\1"]
    a, z = (at[0][0], at[0][0] + int.from_bytes(f[at[0][0]:at[0][0] + 4], "big")) if at else (len(f), len(f))
    body = f[a + 8:z] if at else b""
    cut = r.rnd.choice([0, len(body)])
    size = r.rnd.choice([2**20, 2**21, 2**31, 2**32, 5 * 10**9])
    t = r.rnd.choice([b"mdat", b"free", b"qqqq", b"skip"])
    n = len(body) + 16 + size
    head = b"\0\0\0\1moov" + bytes(w64(n + 16)) if n > 2**32 - 20 or r.rnd.random() < 0.3 else u32(n + 8) + b"moov"
    lead = f[:a] + head + body[:cut] + b"\0\0\0\1" + t + bytes(w64(16 + size))
    o2 = len(lead) + size
    rest = body[cut:] + f[z:]
    return dict(len=w64(o2 + len(rest)), segs=[dict(o=w64(0), b=list(lead)), dict(o=w64(o2), b=list(rest))])


def lists(r):
    """boxes with tables, whose sizes go past the limits of what dump shows at once; texts past the width of a line"""
    out = []
    for n in range(20):
        def v(k, small=n % 3):
            return bytes(k) if small else r.rnd.randbytes(k)
        for t, w, h in ((b"stco", 4, 0), (b"stss", 4, 0), (b"stts", 8, 0), (b"ctts", 8, 0), (b"co64", 8, 0), (b"stsc", 12, 0), (b"stsz", 4, 4), (b"elst", 12, 0)):
            if h + 8 + w * n in range(48, 84):
                out.append(box(t, bytes(4) + bytes(h) + u32(n) + v(w * n)))
        if n in range(9, 18):
            out.append(box(b"ftyp", v(8) + b"iso%d" % (n % 10) * n))
            out.append(box(b"trun", bytes(2) + b"\2\0" + u32(n) + v(4 * n)))
            out.append(box(b"pssh", bytes(4) + v(16) + u32(4 * (n - 6)) + v(4 * (n - 6))))
    for n in range(52, 76):
        out.append(box(b"emsg", bytes(4) + b"a" * (n - 22) + b"\0\0" + r.rnd.randbytes(16)))
        out.append(box(b"ftyp", b"isom" + bytes(4) + b"iso2" * (n // 4 - 2)))
    for n in range(60, 132, 2):
        out.append(box(b"hdlr", bytes(8) + b"vide" + bytes(12) + b"n" * (n + r.rnd.randrange(2)) + b"\0"))
    for k in range(len(out)):
        for _ in range(r.rnd.choice([0, 0, 1, 2])):
            out[k] = box(b"moov", out[k])
    return out


def edge(r):
    return r.rnd.choice([0, 1, 2**31, 2**32 - 1, 2**32, 2**32 + 5, 2**63, 2**64 - 2, r.rnd.randrange(2**32), r.rnd.randrange(2**64 - 1)])


TIMES = [0, 2**32 - 1, 2**32, 2**64 - 2]


def tfdt(r):
    v = r.rnd.randrange(2) if r.rnd.random() < 0.95 else r.rnd.choice([2, 255])
    return box(b"tfdt", bytes([v]) + r.rnd.randbytes(3) + r.rnd.randbytes(4 + 4 * v if v < 2 else 8))


def quiet(f):
    """no trun announces a great many samples without any fields"""
    at = f.find(b"trun")
    while at >= 0:
        if too_big("Trun", list(f[at + 4:at + 12])):
            return False
        at = f.find(b"trun", at + 1)
    return True


def mutant(r, f):
    return [m for m in mutants(r, f, 1) if quiet(m)] if quiet(f) else []


def edit(r, f, m, k=None):
    n = r.rnd.choice([0, 0, 1, 1, 1, 2, 3]) if k is None else k
    return dict(op="tool", cmd="edit", f=m if isinstance(m, dict) else hx(m), drop=names(r, f, n),
                time=[] if r.rnd.random() < 0.5 else [w64(edge(r))])


def pool(r, k, salt):
    fs = [bytes(c["f"]) for c in files(r, k, 0, salt) + files(r, k // 3, 1, salt + 1) + files(r, k // 4, 2, salt + 2)]
    cs = r.gen("GenMovie", {"GEN_COUNT": k // 2, "GEN_SALT": seed() * 29 + salt, "GEN_TAME": 1, "GEN_FRAG": 1})
    return fs, [bytes(c["f"]) for c in cs], movies(r, k // 2, salt, tame=1) + movies(r, k // 6, salt + 1)


def C18(r):
    cs = r.gen("MEdit", {"M_WIDE": 0 if QUICK else 1})
    if len(cs) > (1500 if QUICK else 12000):
        cs = r.rnd.sample(cs, 1500 if QUICK else 12000)
    cmds = [dict(op="tool", cmd="edit", f=hx(c["f"]), drop=c["drop"], time=c["time"]) for c in cs]
    r.conform("JTool", cmds, "edit does not do to a small tree what the model does")
    for b in range(1 if QUICK else 6):
        fs, frags, ms = pool(r, 120 if QUICK else 250, 800 + 17 * b)
        cmds = []
        for f in fs + frags + ms:
            for _ in range(2):
                cmds.append(edit(r, f, f))
            if r.rnd.random() < 0.5:
                cmds += [edit(r, f, m) for m in mutant(r, f)]
        for f in r.rnd.sample(fs + ms, 20):
            cmds.append(edit(r, f, bulky(r, f)))
        for _ in range(80):
            t = b"".join(tfdt(r) for _ in range(r.rnd.randrange(1, 4)))
            f = r.rnd.choice([t, box(b"moof", box(b"traf", t)), box(b"moof", box(b"traf", t) + box(b"traf", tfdt(r))) + tfdt(r)])
            cmds.append(dict(edit(r, f, f), time=[w64(edge(r))]))
        # one box of every type, as it is and with another payload
        for c in cases(r, 300 if QUICK else 1500, 1, 810 + b):
            if c["est"] == "ok" and len(c["p"]) < 2000:
                f = box(bytes(c["type"]), bytes(c["p"]))
                cmds.append(edit(r, f, f, 0))
        r.conform("JTool", cmds, "edit writes something else than it was asked to")


def xtype(r, f):
    ts = [t for t in anywhere(f) if 0 not in t]
    k = r.rnd.random()
    if k < 0.75 and ts:
        return list(r.rnd.choice(ts))
    if k < 0.85:
        return list(r.rnd.choice([b"moo", b"moovx", b"", b"\xc2\xa9nam", b"0x00000001"]))
    return list(r.rnd.choice([b"moov", b"trak", b"zzzz", b"stts", b"mdat", b"free", b"stsd", b"----", b"udta", b"meta"]))


def dump(r, f, m):
    return dict(op="tool", cmd="dump", f=m if isinstance(m, dict) else hx(m), full=names(r, f, r.rnd.choice([0, 0, 1, 2, 4])),
                all=r.rnd.random() < 0.3, offset=r.rnd.random() < 0.5, hex=r.rnd.random() < 0.3,
                mdat=r.rnd.random() < 0.2, free=r.rnd.random() < 0.2)


def pssh(r):
    v = r.rnd.choice([0, 0, 1, 1, 2]) if r.rnd.random() < 0.2 else r.rnd.randrange(2)
    n = r.rnd.randrange(4)
    data = r.rnd.randbytes(r.rnd.choice([0, 1, 2, 3, 30, 100]))
    b = bytes([v]) + r.rnd.randbytes(3) + r.rnd.randbytes(16)
    if v:
        b += u32(n) + r.rnd.randbytes(16 * n)
    b += u32(len(data)) + data + (r.rnd.randbytes(r.rnd.randrange(4)) if r.rnd.random() < 0.1 else b"")
    if r.rnd.random() < 0.2:
        return u32(1) + b"pssh" + bytes(w64(16 + len(b))) + b
    return box(b"pssh", b)


def psshfile(r):
    def some():
        return b"".join(r.rnd.choice([pssh(r), pssh(r), pssh(r), box(b"free", b"xy"), box(b"qqqq", pssh(r)),
                                      box(b"traf", pssh(r)), box(b"trak", pssh(r))]) for _ in range(r.rnd.randrange(5)))
    out = b""
    for _ in range(r.rnd.choice([1, 2, 3])):
        out += r.rnd.choice([box(b"moov", some()), box(b"moof", some()), pssh(r), box(b"free", pssh(r))])
    return out


def C20(r):
    for b in range(1 if QUICK else 6):
        fs, frags, ms = pool(r, 100 if QUICK else 250, 900 + 17 * b)
        big = [bulky(r, f) for f in r.rnd.sample(fs + ms, 12)]
        cmds = []
        for f in fs + frags + ms:
            for m in [f, f] + (mutant(r, f) if r.rnd.random() < 0.6 else []):
                cmds.append(dict(op="tool", cmd="extract", f=hx(m), type=xtype(r, f)))
        for f, g in zip(r.rnd.sample(fs + ms, 12), big):
            cmds.append(dict(op="tool", cmd="extract", f=g, type=list(r.rnd.choice([b"mdat", b"qqqq", b"uuid", b"moov", b"trak"]))))
        r.conform("JTool", cmds, "extract does not write the bytes of the boxes of a type")
        cmds = []
        for f in fs + frags + ms:
            cmds.append(dump(r, f, f))
            if r.rnd.random() < 0.6:
                cmds += [dump(r, f, m) for m in mutant(r, f)]
        for g in big:
            cmds.append(dict(dump(r, b"", g), full=[], all=False, mdat=False))
        for f in r.rnd.sample(fs + ms, 30):
            cmds.append(dict(dump(r, b"", inside(r, f)), full=[], all=False, mdat=False, free=False))
        l = lists(r)
        for k in range(0, len(l), 3):
            f = b"".join(l[k:k + 3])
            cmds.append(dict(dump(r, b"", f), full=[], all=False))
        # one box of every type: texts that do and do not fit in a line
        for c in cases(r, 400 if QUICK else 2000, 1, 910 + b):
            if c["est"] == "ok" and len(c["p"]) < 2000:
                f = box(bytes(c["type"]), bytes(c["p"]))
                for _ in range(r.rnd.randrange(3)):
                    f = box(b"moov", f)
                cmds.append(dump(r, f, f))
        r.conform("JTool", cmds, "dump does not show the boxes of the file")
        cmds = []
        for f in [psshfile(r) for _ in range(250 if QUICK else 1500)] + r.rnd.sample(fs, 20) + r.rnd.sample(frags, 20):
            cmds.append(dict(op="tool", cmd="psshdump", f=hx(f)))
            if r.rnd.random() < 0.3:
                cmds += [dict(op="tool", cmd="psshdump", f=hx(m)) for m in mutant(r, f)]
        r.conform("JTool", cmds, "psshdump does not show the protection headers of the file")
        cmds = []
        for f in frags + ms + movies(r, 40 if QUICK else 150, 950 + b) + movies(r, 80 if QUICK else 200, 970 + b, tame=1, live=1):
            for m in [f] + (mutant(r, f) if r.rnd.random() < 0.4 else []):
                if calm(m):
                    cmds.append(dict(op="tool", cmd="probe", f=hx(m), format=r.rnd.choice(["json", "yaml", ""])))
        r.conform("JReport", cmds, "the report of probe disagrees with the file")


def divide(m):
    return dict(op="tool", cmd="divide", f=hx(m))


def C19(r):
    cs = r.gen("MDivide", {"M_LEN": 4 if QUICK else 5})
    if len(cs) > (500 if QUICK else 8000):
        cs = r.rnd.sample(cs, 500 if QUICK else 8000)
    r.conform("JDivide", [divide(bytes(c["f"])) for c in cs], "divide does not put the boxes where the model does")
    for b in range(1 if QUICK else 8):
        cmds = []
        for odd in (0, 1):
            for c in r.gen("GenDivide", {"GEN_COUNT": 110 if QUICK else 300, "GEN_SALT": seed() * 31 + 40 * b + odd, "GEN_TAME": 1 - (odd and b % 2), "GEN_ODD": odd}):
                f = bytes(c["f"])
                cmds.append(divide(f))
                if r.rnd.random() < 0.3:
                    cmds += [divide(m) for m in mutant(r, f)]
                if r.rnd.random() < 0.2:
                    m = to_eof(r, f)
                    if m is not None:
                        cmds.append(divide(m))
        r.conform("JDivide", cmds, "divide does not split the file by its tracks")
