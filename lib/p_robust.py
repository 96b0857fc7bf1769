"""C11 arbitrary input: an answer at bounded cost."""
import json
from common import tier, seed
from p_codec import cases, mutants as payload_mutants
from p_struct import READERS, CHAINS, OWN, hx, w64, u64, files, mutants, headers, nests, tails, sized, huge
from p_probe import movies, calm, idr_case, edge, EDGE, u32, box

QUICK = tier() == "quick"
PATHS = ["moov", "moov/trak/mdia/minf/stbl/stsd/*", "*/*", "moov/udta/meta/ilst/*/*", "*/*/*/*", "meta/ilst/*", "moof/traf/trun",
         "moov/trak/mdia/minf/stbl/stsd/*/wave/*", "*"]


def paths(r):
    return [[list(b"\0\0\0\0" if x == "*" else x.encode()) for x in p.split("/")] for p in r.rnd.sample(PATHS, 3)]


def small(f):
    """no trun without per-sample fields announces millions of samples"""
    at = f.find(b"trun")
    while at >= 0:
        h = f[at + 4:at + 12]
        if len(h) == 8 and not h[2] & 0x0F and int.from_bytes(h[4:8], "big") > 4096:
            return False
        at = f.find(b"trun", at + 1)
    return True


def robust(r, f, probe=True, reader=None):
    b = f if not isinstance(f, dict) else b"".join(bytes(s["b"]) for s in f["segs"])
    return dict(op="robust", f=f if isinstance(f, dict) else hx(f), paths=paths(r), probe=probe and calm(b),
                reader=r.rnd.choice(READERS) if reader is None else reader)


def wrap(r, typ, p, ctx):
    """payload p in a box of type typ where a traversal gives it this context"""
    b = box(bytes(typ), bytes(p))
    if ctx["ilst"]:
        if ctx["ilstmeta"]:
            b = box(b"----" if ctx["ilstfree"] else r.rnd.choice([b"\xa9nam", b"trkn", b"covr"]), b)
        b = box(b"ilst", b)
        if ctx["keys"] and ctx["keys"] < 1000:
            ks = b"".join(box(b"mdta", b"k%d" % k) for k in range(ctx["keys"]))
            b = box(b"keys", bytes(4) + u32(ctx["keys"]) + ks) + b
        b = box(b"meta", bytes(4) + b)
    if ctx["wave"]:
        b = box(b"wave", b)
        b = box(b"mp4a", bytes(28) + b)
    if ctx["udta"]:
        b = box(b"udta", b)
    elif r.rnd.random() < 0.2:
        b = box(r.rnd.choice([b"moov", b"trak", b"stbl", b"traf"]), b)
    if ctx["qt"] or ctx["keys"]:
        b = box(b"ftyp", b"qt  \0\0\0\0qt  ") + b
    return b


INTERESTING = [b"\xff\xff\xff\xff", b"\x7f\xff\xff\xff", b"\x80\0\0\0", b"\0\0\0\0", b"\0\0\0\1", b"\0\0\0\7", b"\0\0\0\x08",
               b"\0\0\1\0", b"\xff", b"\x80", b"\0", b"\1", b"\x7f", b"\xfe"]


def scribble(r, f, k):
    """f with changed bytes, most of them at the start of some payload"""
    b = bytearray(f)
    hs = headers(f)
    for _ in range(k):
        if hs and r.rnd.random() < 0.8:
            o, h, s, d = r.rnd.choice(hs)
            at = o + h + min(r.rnd.choice([0, 1, 3, 4, 5, 7, 8, 11, 12, 15, 16, 20, r.rnd.randrange(max(1, s))]), max(0, s - h - 1))
            if r.rnd.random() < 0.15:
                at = o + 4          # another type
                b[at:at + 4] = bytes(r.rnd.choice(TYPES))
                continue
        else:
            at = r.rnd.randrange(len(b) + 1)
        x = r.rnd.choice(INTERESTING + [r.rnd.randbytes(2)])
        b[at:at + len(x)] = x[:max(0, len(b) - at)]
    return bytes(b)


TYPES = [b"free"]


def alphabet(r, n):
    """files made of few different bytes, some of which are sizes and types"""
    toks = [b"\0", b"\1", b"\x08", b"\x10", b"\xff", b"\0\0\0\x10", b"\0\0\0\x08", b"\0\0\0\x18", b"\0\0\0\1", b"\0\0\0\0"] + \
           [bytes(t) for t in r.rnd.sample(TYPES, min(4, len(TYPES)))] * 2
    return b"".join(r.rnd.choice(toks) for _ in range(n))


def track(r):
    c = idr_case(r)
    t = c["track"]
    if r.rnd.random() < 0.5:
        for s in t["samples"]:
            if r.rnd.random() < 0.4:
                s["size"] = w64(r.rnd.choice([0, 1, 3, 4, 5, 100, 2**16, 2**20] + ([2**31, 2**32 - 1] if u64(c["f"]["len"]) < 2**20 else [])))
            s["delta"] = w64(edge(r))
    if r.rnd.random() < 0.4 and t["chunks"]:
        ch = r.rnd.choice(t["chunks"])
        ch["off"] = w64(r.rnd.choice([0, 1, 2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 4]))
        ch["spc"] = w64(r.rnd.choice(EDGE))
    if t["avc"] and r.rnd.random() < 0.2:
        t["avc"][0]["ls"] = w64(r.rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 255, 65535]))
    segs = [dict(id=w64(r.rnd.choice([0, 1, 2, 2**32 - 1])), size=w64(edge(r)), dur=w64(edge(r))) for _ in range(r.rnd.choice([0, 1, 2, 5]))]
    return dict(op="track", f=c["f"], reader=c["reader"], track=t, segs=segs, timescale=r.rnd.choice([0, 1, 1000, 2**32 - 1]))


def C11(r):
    r.check_model("MWalk", env={"M_FREE": 2}, min_states=200)
    for b in range(1 if QUICK else 12):
        salt = 500 + 7 * b
        cs = cases(r, 900, 1, salt)
        TYPES[:] = sorted({tuple(c["type"]) for c in cs})
        TYPES[:] = [bytes(t) for t in TYPES]
        fs = [bytes(c["f"]) for c in files(r, 60 if QUICK else 200, 0, salt) + files(r, 30 if QUICK else 100, 1, salt + 1) +
              files(r, 40 if QUICK else 150, 2, salt + 2)]
        ms = movies(r, 60 if QUICK else 250, salt, tame=1) + movies(r, 30 if QUICK else 120, salt + 1, iso=1)
        out = []
        for c in cs:                    # every box type in its context, with broken payloads and payloads of other boxes
            out.append(wrap(r, c["type"], c["p"], c["ctx"]))
            for q in payload_mutants(r, c["p"], 9):
                out.append(wrap(r, c["type"], q, c["ctx"]))
            d = r.rnd.choice(cs)
            out.append(wrap(r, c["type"], d["p"], c["ctx"]))
            out.append(wrap(r, c["type"], r.rnd.randbytes(r.rnd.choice([0, 1, 4, 7, 8, 12, 24, 60])), c["ctx"]))
        for f in fs + ms:
            out.append(f)
            out += [scribble(r, f, r.rnd.choice([1, 1, 2, 4, 10])) for _ in range(16)]
            out += mutants(r, f, 4)
            out.append(f[:r.rnd.randrange(len(f) + 1)])
        out += r.rnd.sample(nests(r), 60) + r.rnd.sample(tails(r), 100)
        out += [alphabet(r, r.rnd.randrange(1, 40)) for _ in range(1500)] + [r.rnd.randbytes(r.rnd.randrange(80)) for _ in range(100)]
        cmds = [robust(r, f) for f in out if small(f)]
        for f in r.rnd.sample([f for f in fs + ms if small(f)], 30):
            cmds.append(robust(r, huge(r, f), reader=r.rnd.choice(["", "eof"])))
        cmds += [track(r) for _ in range(2500)]
        r.rnd.shuffle(cmds)
        r.conform("JRobust", cmds, "the library does not answer, or only after far too many reads")
