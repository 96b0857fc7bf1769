"""C09 the writer, C10 failing and short I/O."""
import json
from common import tier, seed
from p_struct import READERS, hx, w64, u64, headers, mutants, boxes, files, script, some_paths, from_log
from p_codec import cases, too_big, mutants as codec_mutants
from p_probe import movies, calm, probe, idr_case

QUICK = tier() == "quick"
TY = list(b"test")


def bi(off=0, size=0, hdr=0, typ=TY, ext=False):
    return dict(off=w64(off), size=w64(size), hdr=hdr, type=list(typ), ext=ext)


STARTS = [bi(0, 8, 8), bi(0, 0, 16), bi(0, 8, 8, ext=True), bi(0, 77, 8), bi(0, 2**33 + 1, 8)]
DATAS = [[170], [1, 2, 3]]
SRC = [0, 0, 0, 11] + list(b"copy") + [5, 6, 7]


def behaviours(r, n):
    cmds = []
    for c in r.gen("MWriter", {"M_OPS": n}):
        ops = []
        for o in c["ops"]:
            if o[0] == "start":
                ops.append(dict(e="start", bi=STARTS[o[1] - 1]))
            elif o[0] == "write":
                ops.append(dict(e="write", b=hx(DATAS[o[1] - 1])))
            elif o[0] == "copy":
                ops.append(dict(e="copy", f=hx(SRC), bi=bi(0, 11, 8, b"copy"), reader=r.rnd.choice(READERS)))
            elif o[0] == "seek":
                ops.append(dict(e="seek", off=o[1], whence=o[2]))
            else:
                ops.append(dict(e="end"))
        cmds.append(dict(op="writer", ops=ops))
    return cmds


def use(r, values, srcs, far):
    """a random balanced use of the writer"""
    ops, depth, tip = [], 0, 0
    n = r.rnd.choice([3, 6, 10, 20])

    def start():
        k = r.rnd.randrange(8)
        size = r.rnd.choice([0, 8, 8, 9, 100, 2**32 - 1, 2**32, 2**40, 2**63, 2**64 - 1, r.rnd.randrange(2**32)])
        hdr = r.rnd.choice([0, 8, 8, 16, 16])
        return dict(e="start", bi=bi(r.rnd.randrange(99), size, hdr, r.rnd.choice([TY, b"moov", bytes(4), b"\xff\xfe\0\1"]), k == 0))

    while len(ops) < n or depth:
        k = r.rnd.randrange(20)
        if len(ops) > n + 25:
            k = 3
        if k < 3 and len(ops) < n:
            ops.append(start())
            depth += 1
        elif k < 8 and depth and r.rnd.random() < (0.5 if len(ops) < n else 1):
            ops.append(dict(e="end"))
            depth -= 1
        elif k < 12:
            ops.append(dict(e="write", b=hx(r.rnd.randbytes(r.rnd.choice([0, 1, 3, 8, 40])))))
        elif k < 14:
            v = r.rnd.choice(values)
            ops.append(dict(e="marshal", type=v["type"], ctx=v["ctx"], v=v["v"]))
        elif k < 16:
            f = r.rnd.choice(srcs)
            hs = headers(f)
            o, h, s, d = r.rnd.choice(hs)
            if r.rnd.random() < 0.04:
                s = r.rnd.choice([s + 1, len(f) - o + 1, 2**63, 2**64 - 1, 0, 3, 2**33])
            if o + s <= len(f):
                a = max(0, o - 3)
                g = dict(len=w64(len(f)), segs=[dict(o=w64(a), b=list(f[a:o + s + 3]))])
            else:
                g = hx(f)
            ops.append(dict(e="copy", f=g, bi=bi(o, s, h, f[o + 4:o + 8]), reader=r.rnd.choice(READERS)))
        elif k < 17:
            whence = r.rnd.randrange(3)
            off = r.rnd.choice([0, 0, 1, 5, 8, 16, 40] if whence == 0 else [0, -1, -3, 2, 9])
            ops.append(dict(e="seek", off=w64(off), whence=whence))
        elif k == 17:
            ops.append(dict(e="seek", off=w64(0), whence=2))
        elif k == 18 and far and r.rnd.random() < 0.5:
            ops.append(dict(e="seek", off=w64(r.rnd.choice([2**32 - 8, 2**32 - 9, 2**32 - 7, 2**32, 2**33, 2**32 - 16, 2**32 - 17])), whence=r.rnd.choice([1, 2])))
    return dict(op="writer", ops=ops)


def small_values(r, k):
    return [c for c in cases(r, 350, 1, 300 + k) if c["est"] == "ok" and len(c["p"]) < 200]


def C09(r):
    r.conform("JWriter", behaviours(r, 5 if QUICK else 6), "a use of the writer that the model allows ends differently")
    for b in range(1 if QUICK else 10):
        values = small_values(r, b)
        srcs = [bytes(c["f"]) for c in files(r, 40, 0, 61 + b)]
        cmds = [use(r, values, srcs, far=k % 3 == 0) for k in range(900 if QUICK else 3000)]
        r.conform("JWriter", cmds, "the output of the writer is not what was asked for")


# ------------------------------------------------------------------------ C10
ALLR = ["plain", "one", "eof", "oneeof", "chunk2", "chunk3", "chunk7", "vary3", "vary8"]


def fault(r, inner, f=None, modes=("err", "part"), reader="", limit=None):
    c = dict(op="fault", modes=list(modes), limit=limit or (160 if QUICK else 600), reader=reader)
    c["in"] = inner
    if f is not None:
        c["f"] = f
    return c


def same(inner):
    return {"op": "same", "in": inner, "readers": ALLR}


RD = ("err", "part", "eof", "cut")


def C10(r):
    for b in range(1 if QUICK else 8):
        fs = [bytes(c["f"]) for c in files(r, 60 if QUICK else 150, 0, 71 + b, size=500) + files(r, 20 if QUICK else 60, 1, 171 + b, size=500)]
        mv = [f for f in movies(r, 25 if QUICK else 80, 700 + b, tame=1) + movies(r, 8 if QUICK else 30, 750 + b)]
        cmds, walks, sames = [], [], []
        ls = r.drive([dict(op="walk", f=hx(f), script=[], params=[], **{"def": "x"}) for f in fs])
        for f, l in zip(fs, ls):
            rec = json.loads(l)
            cmds.append(fault(r, dict(k="walk", acts=r.rnd.choice(["X", "X", "PX", "XP", "DX", "PXD"])), hx(f), RD))
            paths = some_paths(r, rec)
            cmds.append(fault(r, dict(k="extract", paths=[p for p in paths if p] or [[[0, 0, 0, 0]]], pay=r.rnd.random() < 0.6), hx(f), RD))
            for _, bi, ctx, _ in from_log(r, [l], 1):
                cmds.append(fault(r, dict(k="from", bi=bi, ctx=ctx, acts=r.rnd.choice(["PX", "X"])), hx(f), RD))
                cmds.append(fault(r, dict(k="copyin", bi=bi), hx(f), RD))
                cmds.append(fault(r, dict(k="copyout", bi=bi), hx(f)))
                cmds.append(fault(r, dict(k="seeks", bi=bi), hx(f)))
                cmds.append(fault(r, dict(k="hdr", off=bi["off"]), hx(f), RD))
            # a traversal whose handler may go on after a failure
            for _ in range(4):
                walks.append(dict(op="walk", f=hx(f), script=script(r, 10, 0), params=[1], reader=r.rnd.choice(READERS),
                                  fault=dict(frac=r.rnd.randrange(10000), mode=r.rnd.choice(RD)),
                                  **{"def": r.rnd.choice(["X", "x", "pX", "px", "ppxx", "dxp", "xx"])}))
            sames.append(same(dict(op="walk", f=hx(f), script=script(r, 6), params=[], **{"def": "xpd"})))
            sames.append(same(dict(op="extract", f=hx(f), paths=paths, pay=True)))
            for m in mutants(r, f, 1):
                sames.append(same(dict(op="walk", f=hx(m), script=[], params=[], **{"def": "xpd"})))
        for f in mv:
            cmds.append(fault(r, dict(k=r.rnd.choice(["probe", "probefra"])), hx(f), RD, limit=300 if QUICK else 1500))
            sames.append(same(probe(r, f)))
            sames += [same(probe(r, m)) for m in mutants(r, f, 1) if calm(m)]
        for _ in range(150):
            c = idr_case(r)
            cmds.append(fault(r, dict(k="idr", track=c["track"]), c["f"], RD))
            sames.append(same(c))
        cs = cases(r, 320 if QUICK else 1750, 1, 400 + b)
        for c in cs:
            if c["est"] == "ok":
                cmds.append(fault(r, dict(k="dec", type=c["type"], ctx=c["ctx"], p=hx(c["p"])), None, RD))
                cmds.append(fault(r, dict(k="enc", type=c["type"], ctx=c["ctx"], v=c["v"]), None))
            sames.append(same(dict(op="dec", type=c["type"], ctx=c["ctx"], p=hx(c["p"]), pre="01", post="0203")))
            for q in codec_mutants(r, c["p"], 1):
                if not too_big(c["layout"], q):
                    sames.append(same(dict(op="dec", type=c["type"], ctx=c["ctx"], p=hx(q), pre="01", post="0203")))
        values = [c for c in cs if c["est"] == "ok" and len(c["p"]) < 200]
        for s in STARTS:
            cmds.append(fault(r, dict(k="whdr", bi=s), None))
        for k in range(80 if QUICK else 400):
            u = use(r, values, fs, far=False)
            cmds.append(fault(r, dict(k="script", ops=u["ops"]), None))
        r.conform("JFault", cmds, "an operation goes on although a read, seek or write failed")
        r.conform("JWalk", walks, "a traversal on a failing device")
        r.conform("JFault", sames, "the result depends on how many bytes a Read returns")
