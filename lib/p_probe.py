"""C12, C13 what Probe reports; C14 IDR frames; C15 bitrates."""
from common import tier, seed
from p_struct import READERS, hx, w64, u64, headers, mutants, boxes, to_eof, sized

QUICK = tier() == "quick"


def movies(r, count, salt, tame=0, iso=0, frm=0, live=0):
    fs = [bytes(c["f"]) for c in r.gen("GenMovie", {"GEN_COUNT": count, "GEN_SALT": seed() * 29 + salt, "GEN_TAME": tame,
                                                      "GEN_ISO": iso, "GEN_FROM": frm, "GEN_LIVE": live})]
    return [to_eof(r, f) if r.rnd.random() < 0.15 else f for f in fs]


def calm(f):
    """no stts announces more samples than the record can hold, and no trun without fields more than a few"""
    at = f.find(b"trun")
    while at >= 0:
        if not f[at + 6] & 0x0F if at + 6 < len(f) else False:
            if int.from_bytes(f[at + 8:at + 12], "big") > 1000:
                return False
        at = f.find(b"trun", at + 1)
    at = f.find(b"stts")
    while at >= 0:
        n = int.from_bytes(f[at + 8:at + 12], "big")
        for k in range(min(n, 40)):
            e = f[at + 12 + 8 * k:at + 16 + 8 * k]
            if int.from_bytes(e, "big") > 200:
                return False
        at = f.find(b"stts", at + 1)
    return True


def probe(r, f, idr=True, reader=None):
    return dict(op="probe", f=f if isinstance(f, dict) else hx(f), fra=r.rnd.random() < 0.2, idr=idr,
                reader=r.rnd.choice(READERS) if reader is None else reader)


def u32(n):
    return (n % 2**32).to_bytes(4, "big")


def box(t, b):
    return u32(8 + len(b)) + t + b


def C12(r):
    for b in range(1 if QUICK else 8):
        wild = movies(r, 110 if QUICK else 300, 2 * b, iso=1)
        tame = movies(r, 140 if QUICK else 400, 2 * b + 1, tame=1)
        live = movies(r, 60 if QUICK else 200, 1200 + b, tame=1, live=1)     # most samples in the fragments
        cmds = [probe(r, f) for f in wild + tame + live]
        for f in wild + tame:
            for m in mutants(r, f, 1 if QUICK else 3):
                if calm(m):
                    cmds.append(probe(r, m))
        # audio configurations of every kind, cut at every byte
        cmds += [probe(r, bytes(c["f"]), reader="") for c in
                 r.gen("GenMovie", {"GEN_ASC": 1, "GEN_COUNT": 320, "GEN_FROM": 0 if b == 0 else 320 * b, "GEN_SALT": seed() * 7 + b})]
        for f in r.rnd.sample(tame, 25):         # the same movie behind gigabytes of media data
            f = sized(f)
            size = r.rnd.choice([2**32 - 20, 2**32, 5 * 10**9])
            cut = r.rnd.choice([x[0] for x in boxes(f)] + [len(f)])
            hdr = b"\0\0\0\1mdat" + bytes(w64(16 + size))
            o2 = cut + 16 + size
            cmds.append(probe(r, dict(len=w64(o2 + len(f) - cut), segs=[dict(o=w64(0), b=list(f[:cut] + hdr)), dict(o=w64(o2), b=list(f[cut:]))]),
                              reader=r.rnd.choice(["", "eof"])))
        r.conform("JProbe", cmds, "Probe disagrees with the boxes of the file")


# ------------------------------------------------------------------------ C13
EDGE = [0, 1, 2, 1000, 2**31 - 1, 2**31, 2**32 - 1, 2**32 - 1000]


def edge(r):
    return r.rnd.choice(EDGE) if r.rnd.random() < 0.4 else r.rnd.randrange(2**32) if r.rnd.random() < 0.3 else r.rnd.randrange(3000)


def trun(r, flags, version, n):
    b = bytes([version]) + flags.to_bytes(3, "big") + u32(n)
    for bit in (1, 4):
        if flags & bit:
            b += u32(edge(r))
    if not flags & 0xf00 and n > 50:
        pass
    for _ in range(n):
        for bit in (0x100, 0x200, 0x400, 0x800):
            if flags & bit:
                b += u32(edge(r))
    return box(b"trun", b)


def tfhd(r, flags):
    b = b"\0" + flags.to_bytes(3, "big") + u32(r.rnd.choice([1, 2, 3, edge(r)]))
    for bit, n in ((1, 8), (2, 4), (8, 4), (16, 4), (32, 4)):
        if flags & bit:
            b += r.rnd.randbytes(n) if n == 8 else u32(edge(r))
    return box(b"tfhd", b)


def tfdt(r, version):
    return box(b"tfdt", bytes([version]) + r.rnd.randbytes(3) + r.rnd.choice([r.rnd.randbytes(4 + 4 * version), b"\xff" * (4 + 4 * version)]))


def C13(r):
    cmds = []
    # every combination of the flags of trun and of tfhd, both versions
    moofs = []
    for tf in range(64):
        for v in (0, 1):
            flags = sum(bit for k, bit in enumerate((1, 4, 0x100, 0x200, 0x400, 0x800)) if tf >> k & 1)
            for hf in r.rnd.sample(range(32), 2 if QUICK else 16):
                hflags = sum(bit for k, bit in enumerate((1, 2, 8, 16, 32)) if hf >> k & 1)
                n = r.rnd.choice([0, 1, 2, 3, 5])
                if not flags & 0xf00 and r.rnd.random() < 0.2:
                    n = r.rnd.choice([7, 100, 1000])
                kids = [tfhd(r, hflags | (r.rnd.choice([0, 0, 0x10000, 0x20000])))]
                if r.rnd.random() < 0.8:
                    kids.append(tfdt(r, r.rnd.randrange(2)))
                kids.append(trun(r, flags, v, n))
                if r.rnd.random() < 0.3:
                    r.rnd.shuffle(kids)
                moofs.append(box(b"moof", box(b"mfhd", bytes(8)) + box(b"traf", b"".join(kids))) +
                             (box(b"mdat", r.rnd.randbytes(r.rnd.randrange(9))) if r.rnd.random() < 0.5 else b""))
    r.rnd.shuffle(moofs)
    for k in range(0, len(moofs), 4):
        cmds.append(probe(r, b"".join(moofs[k:k + 4]), idr=False))
    for b in range(1 if QUICK else 8):
        for frag in (0, 1):
            cs = r.gen("GenMovie", {"GEN_COUNT": 60 if QUICK else 200, "GEN_SALT": seed() * 29 + 70 + b, "GEN_TAME": frag, "GEN_FRAG": 1})
            for c in cs:
                cmds.append(probe(r, bytes(c["f"]), idr=False))
                cmds += [probe(r, m, idr=False) for m in mutants(r, bytes(c["f"]), 1) if calm(m)]
        if b == 0:
            # a fragment at an offset beyond 2^32
            for m in r.rnd.sample(moofs, 10):
                o = r.rnd.choice([2**32, 2**33 + 5, 2**62])
                cmds.append(probe(r, dict(len=w64(o + len(m)), segs=[dict(o=w64(0), b=list(b"\0\0\0\1mdat" + bytes(w64(o)))),
                                                                    dict(o=w64(o), b=list(m))]), idr=False, reader=""))
        r.conform("JProbe", cmds, "the summary of a fragment disagrees with its boxes")
        cmds = []


# ------------------------------------------------------------------------ C14
def nals(r, ls, idr):
    """a sample: NAL units with length prefixes, sometimes damaged"""
    b = b""
    for _ in range(r.rnd.choice([0, 1, 1, 2, 3, 4])):
        n = r.rnd.choice([0, 1, 1, 2, 3, 5, 9, 30] + ([255] if r.rnd.random() < 0.05 else []))
        head = r.rnd.choice([5, 0x65, 0x25, 0x85, 0x45]) if r.rnd.random() < idr else r.rnd.choice([1, 0x61, 6, 7, 8, 0x15, 4, 13, 21, 0xe4])
        say = n
        k = r.rnd.randrange(14)
        if k == 0:
            say = r.rnd.choice([0, 255, 256, 2**16 - 1, 2**16, 2**24 - 1, 2**31, 2**32 - 1, 2**32 - 4, 2**32 - 5, 2**64 - 1, 2**64 - 8, 2**63, n + 1, max(0, n - 1)])
        b += (say % 256**ls).to_bytes(ls, "big") + (bytes([head]) + r.rnd.randbytes(n - 1) if n else b"")
    if r.rnd.random() < 0.1:
        b = b[:r.rnd.randrange(len(b) + 1)]
    if r.rnd.random() < 0.1:
        b += r.rnd.randbytes(r.rnd.randrange(1, 6))
    return b


def idr_case(r):
    ls = r.rnd.choice([1, 2, 3, 4, 4, 4]) if r.rnd.random() < 0.97 else r.rnd.choice([0, 5, 8])
    nch = r.rnd.choice([0, 1, 1, 2, 3, 5])
    samples, chunks, segs = [], [], []
    at = r.rnd.choice([0, 0, 8, 37, 2**31 - 20, 2**32 - 9, 2**32 + 5, 2**40, 2**62])
    for _ in range(nch):
        n = r.rnd.choice([0, 1, 1, 2, 3, 4])
        blob = b""
        for _ in range(n):
            s = nals(r, ls, 0.25)
            size = len(s)
            if r.rnd.random() < 0.03:
                size = max(0, size + r.rnd.choice([-1, 1, -3, 2]))
            samples.append(dict(size=w64(size), delta=w64(1)))
            blob += s
        chunks.append(dict(off=w64(at), spc=w64(n)))
        if blob:
            segs.append((at, blob))
        at += len(blob) + r.rnd.choice([0, 0, 3, 100, 2**32])
    if r.rnd.random() < 0.15 and chunks:
        r.rnd.choice(chunks)["spc"] = w64(r.rnd.choice([2**32 - 1, 2**31, 7, 0]))
    if r.rnd.random() < 0.1:
        samples += [dict(size=w64(r.rnd.randrange(40)), delta=w64(1))] * r.rnd.randrange(1, 3)
    if r.rnd.random() < 0.1 and samples:
        samples = samples[:r.rnd.randrange(len(samples))]
    if r.rnd.random() < 0.15 and len(chunks) > 1:
        k = r.rnd.randrange(len(chunks))                 # chunks need not be in the order of their offsets
        j = r.rnd.randrange(len(chunks))
        chunks[k]["off"], chunks[j]["off"] = chunks[j]["off"], chunks[k]["off"]
    if r.rnd.random() < 0.05 and chunks:
        r.rnd.choice(chunks)["off"] = w64(r.rnd.choice([2**63 - 1, 2**63, 2**63 + 5, 2**64 - 1, 2**64 - 6, at + 50]))
    length = at if r.rnd.random() < 0.8 else segs[-1][0] + r.rnd.randrange(len(segs[-1][1]) + 1) if segs else 0
    keep = [dict(o=w64(o), b=list(b[:max(0, length - o)])) for o, b in segs if o < length]
    f = dict(len=w64(length), segs=keep or [dict(o=w64(0), b=[])])
    if all(d["o"] == w64(0) for d in keep) and keep and length != len(keep[0]["b"]):
        f["len"] = w64(length)
    return dict(op="idr", f=f, reader=r.rnd.choice(READERS),
                track=dict(avc=[dict(ls=w64(ls))] if r.rnd.random() < 0.95 else [], chunks=chunks, samples=samples))


def C14(r):
    for b in range(1 if QUICK else 8):
        cmds = [idr_case(r) for _ in range(2500 if QUICK else 4000)]
        for _ in range(60):
            # NAL units of gigabytes
            ls = 4
            size = r.rnd.choice([2**32 - 1, 2**31, 3 * 10**9])
            n1 = r.rnd.choice([2**31 - 100, 10**9, size - 4, size - 9, size - 8, size, 2**32 - 1])
            o = r.rnd.choice([0, 100, 2**33])
            segs = [(o, u32(n1) + b"\x41")]
            if n1 + 4 < size:
                segs.append((o + 4 + n1, u32(size - n1 - 8 if r.rnd.random() < 0.7 else 2**32 - 1) + bytes([r.rnd.choice([0x65, 0x41])])))
            segs.append((o + size, u32(3) + b"\x65\0\0"))
            length = o + size + 7
            segs = [s for k, s in enumerate(segs) if k == 0 or s[0] >= segs[k - 1][0] + len(segs[k - 1][1])]
            cmds.append(dict(op="idr", f=dict(len=w64(length), segs=[dict(o=w64(a), b=list(x)) for a, x in segs]), reader="",
                             track=dict(avc=[dict(ls=w64(ls))], chunks=[dict(off=w64(o), spc=w64(2))],
                                        samples=[dict(size=w64(size), delta=w64(1)), dict(size=w64(7), delta=w64(1))])))
        r.conform("JProbe", cmds, "the samples reported as IDR frames are not those with an IDR slice")
    fs = movies(r, 60 if QUICK else 400, 300, tame=1)
    r.conform("JProbe", [probe(r, f) for f in fs], "IDR frames of a probed movie")


# ------------------------------------------------------------------------ C15
def C15(r):
    for b in range(1 if QUICK else 12):
        cmds = []
        for _ in range(1200 if QUICK else 3000):
            style = r.rnd.randrange(5)
            val = {0: lambda: r.rnd.randrange(4), 1: lambda: r.rnd.choice(EDGE), 2: lambda: r.rnd.randrange(1, 2000),
                   3: lambda: edge(r), 4: lambda: 2**32 - 1 - r.rnd.randrange(3)}[style]
            dur = {0: lambda: r.rnd.randrange(4), 1: lambda: r.rnd.choice(EDGE), 2: lambda: r.rnd.choice([1000, 1001, 512]),
                   3: lambda: r.rnd.randrange(4), 4: lambda: r.rnd.choice([0, 1, 2**32 - 1])}[r.rnd.randrange(5)]
            n = r.rnd.choice([0, 1, 2, 3, 4, 6, 9, 14])
            samples = [dict(size=w64(val()), delta=w64(dur())) for _ in range(n)]
            total = sum(u64(s["delta"]) for s in samples)
            part = sum(u64(s["delta"]) for s in samples[:r.rnd.randrange(n + 1)])
            deltas = [w64(x) for x in (0, 1, total, total + 1, part, max(0, part - 1), part + 1, r.rnd.choice([2, 3, 5, 1000, 2001, 2**32, 2**64 - 1]))]
            m = r.rnd.choice([0, 1, 2, 3, 5, 8])
            ids = r.rnd.choice([[1], [1, 2], [0, 1, 2**32 - 1]])
            cmds.append(dict(op="rate", samples=samples, deltas=deltas, timescale=w64(r.rnd.choice([1, 1000, 90000, 2**32 - 1, 2**31, 0, edge(r)])),
                             id=w64(r.rnd.choice(ids)), segs=[dict(id=w64(r.rnd.choice(ids)), size=w64(val()), dur=w64(dur())) for _ in range(m)]))
        r.conform("JProbe", cmds, "a bitrate is not the exact quotient")
