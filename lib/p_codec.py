"""C06 decoding, C07 encoding, C08 decoding and the bytes around the payload."""
import json
from common import tier, seed

QUICK = tier() == "quick"


def hx(b):
    return bytes(b).hex()


def cases(r, count, modes=1, salt=0, user=0, frm=0, only=-1, hard=0):
    return r.gen("GenCodec", {"GEN_ONLY": only, "GEN_INTRICATE": hard, "GEN_FROM": frm, "GEN_COUNT": count, "GEN_SALT": seed() * 17 + salt,
                              "GEN_MODES": modes, "GEN_USER": user})


def long(r, count, salt):
    """values with strings and lists around the boundaries of their counters"""
    return [c for c in cases(r, count, 1, 700 + salt, only=3) if len(c["p"]) < 20000]


def pascal(r):
    """handler names that are or are not preceded by their length"""
    for n in (0, 1, 2, 3, 31, 32, 127, 128, 129, 253, 254, 255, 256):
        for first in sorted({n, n - 1, n + 1, 255, 0}):
            for pre in (b"mhlr", b"\0\0\0\1", b"\0\0\0\0"):
                if 0 <= first < 256:
                    yield (list(b"\0\0\0\0") + list(pre) + list(b"soun") + [0] * 12 + [first]
                           + [r.rnd.choice([65, 66, 97, 200, 0 if r.rnd.random() < 0.02 else 67]) for _ in range(n)])


def rounds():
    """(number of batches, cases per batch)"""
    return [(k, 1750) for k in range(1 if QUICK else 14)]


def too_big(layout, p):
    # a trun without per-sample fields may announce billions of entries of no bytes
    return layout == "Trun" and len(p) >= 8 and not (p[2] & 0x0F) and int.from_bytes(bytes(p[4:8]), "big") > 4096


def around(r):
    return hx(r.rnd.randbytes(r.rnd.choice([0, 0, 1, 5, 16])))


def after(r):
    k = r.rnd.randrange(4)
    return ["", "00" * 24, "ff" * 24, hx(r.rnd.randbytes(24))][k]


def C06(r):
    for b, n in rounds():
        cmds = []
        for c in cases(r, n, 1, b) + long(r, n // 5, b):
            p = c["p"]
            base = dict(op="dec", type=c["type"], ctx=c["ctx"], pre=around(r), post=after(r), re=False)
            cmds.append(dict(base, p=hx(p), api=r.rnd.choice(["any", "direct"]), kind="canonical"))
            if r.rnd.random() < 0.5 and len(p):
                q = list(p)
                k = r.rnd.randrange(4 if r.rnd.random() < 0.3 else len(q)) % len(q)
                q[k] = r.rnd.choice([q[k] ^ (1 << r.rnd.randrange(8)), 0, 255, r.rnd.randrange(256)])
                if not too_big(c["layout"], q):
                    cmds.append(dict(base, p=hx(q), kind="changed"))
        for p in pascal(r):
            cmds.append(dict(op="dec", type=list(b"hdlr"), ctx={}, pre=around(r), post=after(r), re=False, p=hx(p), kind="name"))
        cmds += [dict(q, kind="lengths") for q in sgpd(r)]
        r.conform("JCodec", cmds, "decoding disagrees with the layout of the box")
    # every version byte of every versioned type
    cmds = []
    seen = set()
    for c in cases(r, 300, 1, 991):
        if tuple(c["type"]) in seen or not len(c["p"]) or c["layout"] == "Meta":
            continue
        seen.add(tuple(c["type"]))
        for v in (0, 1, 2, 3, 254, 255) if QUICK else range(256):
            q = [v] + list(c["p"][1:])
            if not too_big(c["layout"], q):
                cmds.append(dict(op="dec", type=c["type"], ctx=c["ctx"], pre="0102", post=after(r), p=hx(q),
                                 kind="version", re=False))
    r.conform("JCodec", cmds, "version handling disagrees with the registered versions")
    # fields that decide about others, one or two at a time
    cmds, n = [], {}
    for c in cases(r, 600 if QUICK else 3000, 1, 992):
        t, p = json.dumps(c["type"]), list(c["p"])
        if not p or n.get(t, 0) >= (3 if QUICK else 12) or c["layout"] in ("Meta",):
            continue
        n[t] = n.get(t, 0) + 1
        m = min(len(p), 32)
        for k in range(m):
            q = p[:]
            q[k] = r.rnd.choice([x for x in (0, 1, 2, 3, 4, 8, 128, 255, p[k] ^ 1) if x != p[k]])
            if r.rnd.random() < 0.5:
                q[r.rnd.randrange(m)] = r.rnd.choice([0, 0, 1, 2])
            if not too_big(c["layout"], q):
                cmds.append(dict(op="dec", type=c["type"], ctx=c["ctx"], pre="0102", post=after(r), p=hx(q), kind="control", re=False))
    r.conform("JCodec", cmds, "a field decides otherwise about the others than the layout says")
    # the published hvcC layout
    iso = "01" + "00" * 20 + "0f" + "00"
    ls = r.drive([dict(op="dec", type=list(b"hvcC"), ctx={}, p=iso, kind="iso")])
    v = json.loads(ls[0]).get("v")
    if isinstance(v, dict) and v["NumTemporalLayers"][7] == 0 and v["TemporalIdNested"][7] == 3:
        r.known_hits["hvcC-temporal-fields"] = ls


def C07(r):
    for b, n in rounds():
        cmds = [dict(op="enc", type=c["type"], ctx=c["ctx"], mode=c["mode"], v=c["v"], post=after(r))
                for c in cases(r, n * 5 // 4, 3, 31 + b) + long(r, n // 5, 31 + b)]
        r.conform("JCodec", cmds, "encoding disagrees with the layout of the box")


def mutants(r, p, k):
    """payloads near p: cut, lengthened, with changed bytes and counters"""
    out = []
    for _ in range(k):
        q = list(p)
        for _ in range(r.rnd.choice([1, 1, 2])):
            m = r.rnd.randrange(7)
            if m == 0 and q:
                q = q[:r.rnd.randrange(len(q))]
            elif m == 1:
                q += list(r.rnd.randbytes(r.rnd.choice([1, 2, 4, 9])))
            elif m == 2 and q:
                q[r.rnd.randrange(len(q))] = r.rnd.choice([0, 1, 2, 127, 128, 254, 255])
            elif m == 3 and q:
                q[r.rnd.randrange(len(q))] ^= 1 << r.rnd.randrange(8)
            elif m == 4 and len(q) >= 4:
                a = r.rnd.randrange(len(q) - 3)
                q[a:a + 4] = list(r.rnd.choice([b"\xff\xff\xff\xff", b"\x7f\xff\xff\xff", b"\x10\0\0\0", b"\0\0\1\0", b"\x20\0\0\4", b"\xe0\0\0\x08"]))
            elif m == 5 and q:
                a = r.rnd.randrange(len(q))
                del q[a:a + r.rnd.randrange(1, 5)]
            elif m == 6 and q:
                q = q[:-1]
        out.append(q)
    return out


def wraps(r, c):
    """payloads with a number that is too large by a multiple of 2^29 (bytes) or 2^32 (bits)"""
    p = c["p"]
    for a in range(0, min(len(p) - 3, 40), 4):
        if c["layout"] == "Sgpd" or r.rnd.random() < (0.02 if r.rnd.random() < 0.9 else 1):
            q = list(p)
            q[a] ^= r.rnd.choice([0x20, 0x40, 0x80, 0xE0, 0x60])
            yield q


def sgpd(r):
    """alternative startup entries whose length is right, wrong or right modulo 2^29 bytes"""
    def u(n, k=4):
        return list((n % 256 ** k).to_bytes(k, "big"))
    for wrap in (0, 1 << 29, 3 << 29, 1 << 31, 7 << 29, 1 << 24):
        for roll in (0, 1, 3):
            for opt in (0, 1, 2):
                for off in (0, 0, -1, 1, 4, 8):
                    n = 4 + 4 * roll + 4 * opt + off
                    e = u(roll, 2) + u(1, 2) + list(r.rnd.randbytes(4 * roll + 4 * opt))
                    k = r.rnd.choice([1, 1, 2])
                    if r.rnd.random() < 0.5:
                        q = [1, 0, 0, 0] + list(b"alst") + u(n + wrap) + u(k) + e * k
                    elif r.rnd.random() < 0.7:
                        q = [1, 0, 0, 0] + list(b"alst") + u(0) + u(k) + (u(n + wrap) + e) * k
                    else:
                        q = [2, 0, 0, 0] + list(b"alst") + u(n + wrap) + u(1) + u(k) + e * k
                    yield dict(op="dec", type=list(b"sgpd"), ctx={}, p=hx(q), re=False, pre=around(r),
                               post=r.rnd.choice(["", "00" * 40, "ff" * 40, hx(e)]))


def C08(r):
    for b, n in rounds():
        cmds, mem = [], []
        for c in cases(r, 500, 1, 57 + b) + cases(r, 330, 1, 77 + b, hard=1) + long(r, 60, 57 + b):
            for q in mutants(r, c["p"], 3 if QUICK else 4) + list(wraps(r, c)):
                if too_big(c["layout"], q):
                    continue
                base = dict(op="dec", type=c["type"], ctx=c["ctx"], p=hx(q), re=False)
                for post in r.rnd.sample(["", "00" * 40, "ff" * 40, hx(r.rnd.randbytes(40))], 2):
                    cmds.append(dict(base, pre=around(r), post=post))
                if b"\xff\xff" in bytes(q) or b"\x7f\xff" in bytes(q) or b"\x10\0\0" in bytes(q):
                    mem.append(dict(base, pre="", post="", mem=True))
        cmds += list(sgpd(r))
        r.conform("JCodec", cmds, "decoding depends on more than the payload")
        r.conform("JCodec", mem, "decoding allocates memory for bytes that are not there", denv={"VERIF_WORKERS": "1"})
