"""C01 headers, C02 traversal, C03 malformed structures, C04 meaning of types, C05 extraction."""
import json
from common import tier, seed

QUICK = tier() == "quick"
READERS = ["", "", "one", "eof", "oneeof", "chunk3", "chunk7", "vary1", "vary2"]
T64 = (1 << 64) - 1


def hx(b):
    return bytes(b).hex()


def w64(n):
    return list((n & T64).to_bytes(8, "big"))


def u64(b):
    return int.from_bytes(bytes(b), "big")


def files(r, count, style, salt, depth=6, size=900):
    cs = r.gen("GenFile", {"GEN_COUNT": count, "GEN_SALT": seed() * 53 + salt, "GEN_STYLE": style,
                           "GEN_DEPTH": depth, "GEN_BYTES": size})
    for c in cs:
        if r.rnd.random() < 0.2:
            c["f"] = list(to_eof(r, bytes(c["f"])))
    return cs


def to_eof(r, f):
    """f with its last box (and maybe the last ones in it) extending to the end of the file"""
    b = bytearray(f)
    off, end = 0, len(b)
    while True:
        bs = boxes(b, off, end)
        if not bs or bs[-1][0] + bs[-1][2] != end or bs[-1][1] != 8:
            return bytes(b)
        o, h, s = bs[-1]
        b[o:o + 4] = bytes(4)
        if bytes(b[o + 4:o + 8]) not in CONT or r.rnd.random() < 0.4:
            return bytes(b)
        off = o + 8


def boxes(b, off=0, end=None):
    """(offset, header size, size) of the boxes on one level, as far as they make sense"""
    end = len(b) if end is None else end
    out = []
    while end - off >= 8:
        size, hdr = int.from_bytes(b[off:off + 4], "big"), 8
        if size == 1 and end - off >= 16:
            size, hdr = int.from_bytes(b[off + 8:off + 16], "big"), 16
        if size == 0:
            size = end - off
        if size < hdr or size > end - off:
            break
        out.append((off, hdr, size))
        off += size
    return out


CONT = {b"moov", b"trak", b"mdia", b"minf", b"stbl", b"udta", b"moof", b"traf", b"ilst", b"wave", b"edts", b"dinf", b"mvex",
        b"mfra", b"sinf", b"schi"}


def headers(b, off=0, end=None, depth=0):
    """positions of box headers at every depth (containers without own fields)"""
    out = []
    for o, h, s in boxes(b, off, end):
        out.append((o, h, s, depth))
        if bytes(b[o + 4:o + 8]) in CONT and depth < 12:
            out += headers(b, o + h, o + s, depth + 1)
    return out


# ------------------------------------------------------------------------ C01
def C01(r):
    cmds = []
    for i, c in enumerate(r.gen("GenHdr", {})):
        off = u64(c["off"])
        flen = [min(off + 64, 2**63 - 1), 2**63 - 1, off + 8, off + 16, off + 9][r.rnd.choice([0, 0, 1, 1, 2, 3, 4])]
        cmds.append(dict(op="hdrw", off=c["off"], bi=c["bi"], flen=w64(flen)))
    r.conform("JStruct", cmds, "box headers are not written or read back as described")
    cmds = []
    # every position of generated files, all reader habits
    for c in files(r, 40 if QUICK else 400, 0, 1) + files(r, 10 if QUICK else 100, 1, 2):
        f = bytes(c["f"])
        hs = headers(f)
        pos = [h[0] for h in r.rnd.sample(hs, min(len(hs), 6))] + [r.rnd.randrange(len(f) + 1) for _ in range(3)] + \
            [max(0, len(f) - r.rnd.randrange(18)), len(f), len(f) + 3]
        for p in pos:
            # around the header only: the rest of the file is a hole
            a = max(0, p - 8)
            cmds.append(dict(op="hdrr", f=dict(len=w64(len(f)), segs=[dict(o=w64(a), b=list(f[a:p + 24]))]),
                             off=w64(p), reader=r.rnd.choice(READERS)))
    # boundary sizes at boundary positions
    offs = [0, 5, 2**31, 2**32 - 8, 2**32, 2**40, 2**62, 2**63 - 41]
    sizes = [0, 1, 2, 7, 8, 9, 15, 16, 17, 255, 2**31, 2**32 - 1]
    larges = [0, 1, 8, 15, 16, 17, 2**31, 2**32 - 1, 2**32, 2**32 + 9, 2**62, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 8]
    for o in offs:
        for s in sizes:
            for l in (larges if s == 1 else [r.rnd.choice(larges)]):
                d = 2**63 - 1 - o
                for rest in ([d, l, 16] if s == 1 else [d, 8]):
                    for e in {l, d, d + 1} if s == 1 else [l]:
                        h = list(s.to_bytes(4, "big")) + list(r.rnd.choice([b"mdat", b"\0\0\0\0", b"\xff\xa9ab"])) + w64(e)
                        cmds.append(dict(op="hdrr", f=dict(len=w64(o + min(rest, d)), segs=[dict(o=w64(o), b=h)]),
                                         off=w64(o), reader=r.rnd.choice(READERS)))
    # headers cut short
    for h in (b"\0\0\0\1mdat" + bytes(w64(20)), b"\0\0\0\x14free" + bytes(12), b"\0\0\0\0free" + bytes(8)):
        for n in range(len(h) + 1):
            for o in (0, 3, 2**33):
                cmds.append(dict(op="hdrr", f=dict(len=w64(o + n), segs=[dict(o=w64(o), b=list(h[:n]))]), off=w64(o),
                                 reader=r.rnd.choice(READERS)))
    r.conform("JStruct", cmds, "ReadBoxInfo disagrees with the header")


# ------------------------------------------------------------------------ C02
LETTERS = ["", "x", "X", "p", "P", "Px", "pX", "xx", "XX", "dX", "D", "Xp", "xsp", "szx", "pd", "Xd", "PzX", "dxdp", "xPx", "sn", "zn",
           "xn", "XpX"]


def script(r, n, bad=0.02):
    l = [r.rnd.choice(LETTERS) for _ in range(n)]
    if r.rnd.random() < bad * 5:
        l[r.rnd.randrange(n)] += "e"
    return l


def model_behaviours(r, free, take=None):
    """every behaviour of the exhaustive traversal model, replayed"""
    cs = r.gen("MWalk", {"M_FREE": free})
    if take and len(cs) > take:
        cs = r.rnd.sample(cs, take)
    cmds = []
    for c in cs:
        cmds.append(dict(op="walk", f=hx(c["f"]), script=["".join(w) for w in c["script"]], params=[]))
    return cmds


def from_log(r, lines, k):
    """traversals and extractions that start at a box another traversal reported"""
    out = []
    for l in r.rnd.sample(lines, min(k, len(lines))):
        rec = json.loads(l)
        vs = [e for e in rec.get("log", []) if e["e"] == "v"]
        if not vs:
            continue
        e = r.rnd.choice(vs)
        out.append((rec["f"], e["bi"], e["ctx"] if r.rnd.random() < 0.8 else {}, e["path"]))
    return out


def sized(f):
    """f with every box having a size again"""
    b = bytearray(f)
    for o, h, s, d in headers(f):
        if b[o:o + 4] == bytes(4):
            b[o:o + 4] = s.to_bytes(4, "big")
    return bytes(b)


# types the library would not read into memory
HOLE = [b"qqqq", b"uuid", b"QQ\xff\0"]


def huge(r, f):
    """f with gigabytes of nothing in it"""
    f = sized(f)
    bs = boxes(f)
    cut = r.rnd.choice([b[0] for b in bs] + [len(f)])
    size = r.rnd.choice([2**32 - 8, 2**32, 2**32 + 16, 5 * 10**9, 2**40 + 3, 2**61])
    k = r.rnd.randrange(3)
    if k == 0 and bs:      # everything from cut on inside a large container behind a hole
        rest = f[cut:] if cut < len(f) else f
        hdr = b"\0\0\0\1moov" + bytes(w64(16 + 16 + size + len(rest)))
        hole = b"\0\0\0\1qqqq" + bytes(w64(16 + size))
        o2 = cut + 32 + size
        return dict(len=w64(o2 + len(rest)), segs=[dict(o=w64(0), b=list(f[:cut] + hdr + hole)), dict(o=w64(o2), b=list(rest))])
    if k == 1:             # to the end of the file
        h = b"\0\0\0\0" + r.rnd.choice(HOLE)
        return dict(len=w64(len(f) + 8 + size), segs=[dict(o=w64(0), b=list(f + h))])
    hdr = b"\0\0\0\1" + r.rnd.choice(HOLE) + bytes(w64(16 + size))
    o2 = cut + 16 + size
    return dict(len=w64(o2 + len(f) - cut), segs=[dict(o=w64(0), b=list(f[:cut] + hdr)), dict(o=w64(o2), b=list(f[cut:]))])


def C02(r):
    r.conform("JWalk", model_behaviours(r, 2) if QUICK else model_behaviours(r, 3),
              "a behaviour of the traversal model is not what the library does")
    rounds = 1 if QUICK else 6
    for b in range(rounds):
        fs = [bytes(c["f"]) for c in files(r, 110 if QUICK else 300, 0, 11 + b) + files(r, 30 if QUICK else 150, 1, 111 + b) + \
            files(r, 15 if QUICK else 80, 2, 211 + b)]
        cmds = []
        for f in fs:
            cmds.append(dict(op="walk", f=hx(f), script=script(r, 12), params=[r.rnd.randrange(9)] * r.rnd.randrange(3),
                             reader=r.rnd.choice(READERS), **{"def": r.rnd.choice(["X", "x", "Px", "xdp", "pX"])}))
        for f in r.rnd.sample(fs, 25 if QUICK else 100):
            cmds.append(dict(op="walk", f=huge(r, f), script=script(r, 4), params=[],
                             reader=r.rnd.choice(["", "", "eof", "vary3"]), **{"def": r.rnd.choice(["x", "xp", "px"])}))
        ls = r.conform("JWalk", cmds, "traversal disagrees with the specification")
        cmds = []
        for f, bi, ctx, path in from_log(r, ls, 40 if QUICK else 200):
            cmds.append(dict(op="walk", f=f, **{"from": [dict(bi=bi, ctx=ctx)]}, script=script(r, 5), params=[1, 2],
                             reader=r.rnd.choice(READERS), **{"def": "x"}))
        r.conform("JWalk", cmds, "traversal from a box disagrees with the specification")


# ------------------------------------------------------------------------ C03
def mutants(r, f, k):
    out = []
    hs = headers(f)
    for _ in range(k):
        b = bytearray(f)
        for _ in range(r.rnd.choice([1, 1, 1, 2])):
            m = r.rnd.randrange(7)
            if m == 0:
                b = b[:r.rnd.randrange(len(b) + 1)]
            elif m in (1, 2, 3) and hs:
                o, h, s, d = r.rnd.choice(hs)
                if m == 1:
                    v = r.rnd.choice([0, 1, 2, 7, 8, 9, 15, 16, s - 1, s + 1, s + 8, s - 8, s - h, 2**31, 2**32 - 1, len(b) - o, len(b)])
                else:
                    v = max(0, s + r.rnd.randrange(-9, 10))
                if h == 16:
                    b[o + 8:o + 16] = bytes(w64(r.rnd.choice([v, v, 2**63 - o, 2**63 - 1 - o, 2**64 - 1, 2**64 - 8, 2**64 - o])))
                else:
                    b[o:o + 4] = (v % 2**32).to_bytes(4, "big")
            elif m == 4 and len(b):
                b[r.rnd.randrange(len(b))] ^= 1 << r.rnd.randrange(8)
            elif m == 5 and hs:
                o, h, s, d = r.rnd.choice(hs)
                at = r.rnd.choice([o, o + s])
                b[at:at] = bytes(r.rnd.choice([r.rnd.randrange(8), 4, 1]))
            elif m == 6 and hs:
                o, h, s, d = r.rnd.choice(hs)
                at = r.rnd.choice([o + h, o + s])
                b[at:at] = b"\0\0\0\1free" + bytes(w64(r.rnd.choice([2**63 - 1, 2**63 - 1 - at, 2**63 - at, 2**64 - 1, 2**64 - at, 16, 15, 17])))
        out.append(bytes(b))
    return out


def nests(r):
    """a little tree of boxes in which every size field takes every small value"""
    out = []
    sizes = list(range(0, 48)) + [2**31, 2**32 - 1, 2**32 - 8]
    for t in range(3):
        for s in sizes:
            for large in (False, True):
                b = b""
                kids = [b"free", b"trak", b"moov"]
                inner = b"\0\0\0\x09skip\x55"
                for lvl in range(3):
                    body = inner if lvl else b"\x01\x02"
                    tail = b"\0\0\0\x08free" if lvl == 1 else b""
                    size = len(body) + len(tail) + (16 if large and lvl == t else 8)
                    if lvl == t:
                        size = s
                    hdr = b"\0\0\0\1" + kids[lvl] + bytes(w64(size)) if large and lvl == t else size.to_bytes(4, "big") + kids[lvl]
                    inner = hdr + body + tail
                out.append(inner + r.rnd.choice([b"", b"", b"\0\0\0\x08free", b"\1\2\3"]))
    return out


CHAINS = """moov/trak/mdia/minf/stbl/stsd/avc1 stsd/mp4a/wave/mp4a stbl/stsd/enca/sinf/schi moov/trak/udta udta udta/meta/ilst/----
moov/udta/meta/ilst/trkn meta/ilst/\xa9nam moof/traf mfra minf/dinf/dref trak/edts moov/mvex/trep stsd/wvtt vttc sinf/schi
udta/udta/udta ilst/ilst/---- wave/wave/wave stsd/encv/sinf stsd/hvc1 stsd/Opus stsd/stpp meta/meta/ilst""".split()
OWN = {b"meta": 4, b"stsd": 8, b"dref": 8, b"trep": 8, b"avc1": 78, b"encv": 78, b"hvc1": 78, b"mp4a": 28, b"enca": 28, b"Opus": 28,
       b"wvtt": 8, b"stpp": 11}


def tails(r):
    """nested boxes with some bytes that are no box at the end of one of them"""
    out = []
    for chain in CHAINS:
        ts = [t.encode("latin-1") for t in chain.split("/")]
        for lvl in range(len(ts)):
            for k in range(1, 10):
                if QUICK and len(ts) > 3 and r.rnd.random() < 0.5:
                    continue
                for qt in (False, True):
                    inner = r.rnd.choice([b"", b"\0\0\0\x08free", b"\0\0\0\x0aqqqq\1\2"])
                    for j in range(len(ts) - 1, -1, -1):
                        body = bytes(OWN.get(ts[j], 0)) + inner
                        if j == lvl:
                            body += r.rnd.choice([bytes(k), bytes([0, 0, 0, k][:k]) + b"free\0"[:max(0, k - 4)],
                                                  bytes(r.rnd.randrange(256) for _ in range(k))])
                        inner = (8 + len(body)).to_bytes(4, "big") + ts[j] + body
                    out.append(b"\0\0\0\x14ftyp" + (b"qt  " if qt else b"isom") + b"\0\0\0\0" + (b"qt  " if qt else b"mp41") + inner)
    return out


def C03(r):
    cmds = []
    for f in tails(r):
        cmds.append(dict(op="walk", f=hx(f), script=[], params=[], **{"def": r.rnd.choice("xX")}))
    r.conform("JWalk", cmds, "bytes at the end of a box that are no box")
    cmds = []
    for f in nests(r):
        cmds.append(dict(op="walk", f=hx(f), script=[], params=[], **{"def": "X"}))
    for f in r.rnd.sample(nests(r), 60):
        for k in r.rnd.sample(range(len(f) + 1), 2):
            cmds.append(dict(op="walk", f=hx(f[:k]), script=[], params=[], reader=r.rnd.choice(READERS), **{"def": "X"}))
    r.conform("JWalk", cmds, "a broken structure is not reported")
    for b in range(1 if QUICK else 8):
        fs = [bytes(c["f"]) for c in files(r, 90 if QUICK else 250, 0, 21 + b, size=500) + files(r, 20 if QUICK else 80, 1, 121 + b, size=500)]
        cmds, ex = [], []
        for f in fs:
            for m in mutants(r, f, 2):
                cmds.append(dict(op="walk", f=hx(m), script=[], params=[], reader=r.rnd.choice(READERS),
                                 **{"def": r.rnd.choice(["X", "X", "x", "PX", "DX", "px"])}))
        for f in r.rnd.sample(fs, 12):      # sizes near 2^63 and 2^64 behind holes
            f = sized(f)
            h = huge(r, f)
            big = r.rnd.choice([2**63 - 1, 2**63, 2**64 - 1, 2**64 - 8, 2**63 - 1 - 40, 2**64 - 2**33])
            at = u64(h["len"])
            cut = boxes(f)[0][2] if boxes(f) else 0
            g = f[:cut] + b"\0\0\0\1moov" + bytes(w64(big)) + f[cut:]
            cmds.append(dict(op="walk", f=dict(len=w64(r.rnd.choice([2**63 - 1, len(g), len(g) + 2**33])), segs=[dict(o=w64(0), b=list(g))]),
                             script=["x"] * 3, params=[], **{"def": "p"}))
            o = 2**62
            tail = b"\0\0\0\1free" + bytes(w64(r.rnd.choice([2**62 - 1, 2**62, 2**62 - 2, 2**63 - 1, 2**64 - o])))
            g = f[:cut] + b"\0\0\0\1mdat" + bytes(w64(o - cut))
            cmds.append(dict(op="walk", f=dict(len=w64(2**63 - 1), segs=[dict(o=w64(0), b=list(g)), dict(o=w64(o), b=list(tail))]),
                             script=["x"] * 3, params=[], **{"def": ""}))
        ls = r.conform("JWalk", cmds, "a malformed structure is handled differently than specified")
        cmds = []
        for l in r.rnd.sample(ls, min(len(ls), 120 if QUICK else 300)):
            rec = json.loads(l)
            cmds.append(dict(op="extract", f=rec["f"], paths=some_paths(r, rec), pay=r.rnd.random() < 0.5))
        r.conform("JStruct", cmds, "extraction from a malformed structure gives something else than specified")


# ------------------------------------------------------------------------ C04
def C04(r):
    cmds = []
    for c in r.gen("GenReg", {"GEN_ALL": 0 if QUICK else 1, "GEN_SALT": seed()}):
        cmds.append(dict(op="reg", type=c["type"], ctx=c["ctx"]))
    r.conform("JStruct", cmds, "the meaning of a type in a context")
    for b in range(1 if QUICK else 8):
        cmds = []
        for c in files(r, 40 if QUICK else 150, 1, 31 + b) + files(r, 15 if QUICK else 100, 0, 131 + b) + \
                files(r, 60 if QUICK else 250, 2, 231 + b, depth=7, size=700):
            cmds.append(dict(op="walk", f=hx(c["f"]), script=[], params=[], reader=r.rnd.choice(READERS),
                             **{"def": r.rnd.choice(["pX", "px", "x", "Xp"])}))
        r.conform("JWalk", cmds, "contexts of a traversal")
    user_reg(r)


def user_reg(r):
    """the user registers structures, over built-in types among others"""
    import p_user
    over = [b"free", b"skip", b"udta", b"meta", b"ilst", b"trak", b"moov", b"mdia", b"wave", b"mp4a", b"name", b"mean", b"data",
            b"cprt", b"gnre", b"titl", b"----", b"\xa9nam", b"trkn", b"\0\0\0\1", b"\0\0\0\2", b"\0\0\0\3", b"moof", b"traf", b"stsd",
            b"mvhd", b"uuid", b"qqqq", b"mdat", b"\xff\xff\xff\xff", b"minf", b"dinf", b"hdlr", b"abcd"]
    for b in range(1 if QUICK else 6):
        m = p_user.Maker(r.rnd, "U")
        for k in range(9):
            s = m.plain(k == 2) if k < 3 else m.box()
            s.any = True
            if k < 2:               # boxes that can stand for a container
                for f in s.fields[k:]:
                    s.fields.remove(f)
        for k, t in enumerate(r.rnd.sample(over, 26)):
            for _ in range(r.rnd.choice([1, 1, 2, 3])):
                s = m.structs[0]
                while not s.root or (t in (b"moov", b"trak", b"udta", b"meta", b"ilst", b"mdia") and r.rnd.random() < 0.7):
                    s = r.rnd.choice([x for x in m.structs if x.root])
                    if s in m.structs[:3]:
                        break
                m.reg.append(dict(type=list(t), layout=s.name, versions=r.rnd.choice([[], [0], [0, 1], [2, 3]]) if s.full else [],
                                  pred=r.rnd.choice(sorted(p_user.PRED)), ex=True))
                if m.reg[-1]["pred"] == "always":
                    m.reg[-1]["ex"] = r.rnd.random() < 0.5
        r.use(dict(go=m.go(), spec=m.spec()))
        cmds = []
        for c in r.gen("GenReg", {"GEN_ALL": 0 if QUICK else 1, "GEN_SALT": seed() + b, "GEN_USER": 1}):
            cmds.append(dict(op="reg", type=c["type"], ctx=c["ctx"]))
        r.conform("JStruct", cmds, "the meaning of a type in a context, with structures of the user")
        cmds = []
        for c in files(r, 40 if QUICK else 150, 2, 331 + b, depth=6, size=500) + files(r, 20 if QUICK else 100, 1, 431 + b):
            cmds.append(dict(op="walk", f=hx(c["f"]), script=[], params=[], reader=r.rnd.choice(READERS),
                             **{"def": r.rnd.choice(["pX", "px", "x", "Xp"])}))
        r.conform("JWalk", cmds, "a traversal with structures of the user")
    r.user = None


# ------------------------------------------------------------------------ C05
ANY = [0, 0, 0, 0]


def some_paths(r, rec, drop=0):
    ps = [e["path"][drop:] for e in rec.get("log", []) if e["e"] == "v"]
    ps = [p for p in ps if p]
    out = []
    for _ in range(r.rnd.choice([0, 1, 1, 1, 2, 3])) if r.rnd.random() < 0.3 else range(r.rnd.choice([1, 1, 2])):
        k = r.rnd.randrange(10)
        if not ps or k == 0:
            p = [list(r.rnd.choice([b"moov", b"trak", b"free", b"qqqq", b"mdat"])) for _ in range(r.rnd.randrange(1, 4))]
        else:
            p = [list(x) for x in r.rnd.choice(ps)]
            if k in (1, 2, 3, 4):
                p[r.rnd.randrange(len(p))] = ANY
            if k in (4, 5):
                p[-1] = ANY
            if k == 6:
                p.append(ANY)
            if k == 7 and len(p) > 1:
                p = p[:-1]
            if k == 8 and r.rnd.random() < 0.3:
                p = []
            if k == 9:
                p = [ANY] * len(p)
        out.append(p)
        if r.rnd.random() < 0.2:
            out.append([list(x) for x in p])
    return out


def C05(r):
    for b in range(1 if QUICK else 8):
        fs = [bytes(c["f"]) for c in files(r, 110 if QUICK else 300, 0, 41 + b) + files(r, 30 if QUICK else 100, 1, 141 + b)]
        cmds = [dict(op="walk", f=hx(f), script=[], params=[], **{"def": "x"}) for f in fs] + \
               [dict(op="walk", f=huge(r, f), script=[], params=[], **{"def": "x"}) for f in r.rnd.sample(fs, 15)]
        ls = r.drive(cmds)
        cmds = []
        for l in ls:
            rec = json.loads(l)
            for k in range(3):
                cmds.append(dict(op="extract", f=rec["f"], paths=some_paths(r, rec), pay=r.rnd.random() < 0.5,
                                 single=True, reader=r.rnd.choice(READERS)))
            for f, bi, ctx, path in from_log(r, [l], 1):
                cmds.append(dict(op="extract", f=f, **{"from": [dict(bi=bi, ctx=ctx)]}, pay=r.rnd.random() < 0.5, single=True,
                                 paths=some_paths(r, {"log": [e for e in rec["log"] if e["e"] == "v" and e["path"][:len(path)] == path]},
                                                  len(path)), reader=r.rnd.choice(READERS)))
        # payloads whose meaning depends on where the box is
        fs = [bytes(c["f"]) for c in files(r, 70 if QUICK else 250, 2, 241 + b, depth=7, size=700)]
        for l in r.drive([dict(op="walk", f=hx(f), script=[], params=[], **{"def": "x"}) for f in fs]):
            rec = json.loads(l)
            deep = {json.dumps(e["path"]): e["path"] for e in rec["log"] if e["e"] == "v" and any(e["ctx"].values())}
            for p in r.rnd.sample(sorted(deep), min(len(deep), 5)):
                cmds.append(dict(op="extract", f=rec["f"], paths=[deep[p]], pay=True, single=True, reader=r.rnd.choice(READERS)))
        r.conform("JStruct", cmds, "extraction disagrees with filtering the traversal")
