"""C17 independent uses at the same time."""
import json
from common import tier
from p_struct import READERS, hx, files, script, some_paths, mutants as file_mutants
from p_codec import cases, mutants as payload_mutants, too_big
from p_probe import movies, calm, probe, idr_case
from p_write import use
from p_access import ops

QUICK = tier() == "quick"
JUDGE = {"dec": "JCodec", "enc": "JCodec", "str": "JText", "walk": "JWalk", "extract": "JStruct", "probe": "JProbe", "idr": "JProbe",
         "writer": "JWriter", "flags": "JAccess", "boxtype": "JAccess"}


class Pool:
    """commands for the library, by kind"""

    def __init__(self, r, n, salt):
        self.r, self.by, self.of = r, {}, {}
        cs = [c for c in cases(r, 8 * n, 3, salt) if len(c["p"]) < 400]
        self.fs = [bytes(c["f"]) for c in files(r, n, 0, salt) + files(r, n // 3, 1, salt + 1) + files(r, n // 3, 2, salt + 2)]
        self.ms = movies(r, max(8, n // 4), salt, tame=1) + movies(r, max(4, n // 8), salt + 1, iso=1)
        for c in cs:
            t = dict(type=c["type"], ctx=c["ctx"])
            self.group = c["layout"]
            if c["est"] == "ok":
                self.add(dict(t, op="dec", pre="", post="", re=False, api="any", p=hx(c["p"])))
                q = payload_mutants(r, c["p"], 1)[0]
                if not too_big(c["layout"], q):
                    self.add(dict(t, op="dec", pre="", post="", re=False, p=hx(q)))
            self.add(dict(t, op="enc", mode=c["mode"], v=c["v"], post=""))
            self.add(dict(t, op="str", v=c["v"], inds=["", "2020"]))
            self.add(dict(t, op="flags", v=c["v"], ops=ops(r, 3)))
            self.add(dict(op="boxtype", a=c["type"], b=c["type"], s=c["type"]))
        self.group = None
        for f in self.fs:
            self.add(dict(op="walk", f=hx(f), script=script(r, 8), params=[r.rnd.randrange(9)] * r.rnd.randrange(3),
                          **{"def": r.rnd.choice(["X", "x", "Px", "xdp", "pX"])}))
            for m in file_mutants(r, f, 1):
                self.add(dict(op="walk", f=hx(m), script=[], params=[], **{"def": "pX"}))
        ls = r.drive([dict(op="walk", f=hx(f), script=[], params=[], **{"def": "x"}) for f in self.fs])
        for l in ls:
            rec = json.loads(l)
            for k in range(2):
                self.add(dict(op="extract", f=rec["f"], paths=some_paths(r, rec), pay=r.rnd.random() < 0.7, single=True))
        for m in self.ms:
            self.add(probe(r, m))
            for x in file_mutants(r, m, 1):
                if calm(x):
                    self.add(probe(r, x))
        for _ in range(n):
            self.add(idr_case(r))
        values = [c for c in cs if c["est"] == "ok" and len(c["p"]) < 200]
        for k in range(n):
            self.add(use(r, values, self.fs, far=False))

    def add(self, c):
        c = dict(c, reader=self.r.rnd.choice(READERS))
        self.by.setdefault(c["op"], []).append(c)
        self.of.setdefault(self.group or c["op"], []).append(c)

    def one(self, kinds=None):
        return self.r.rnd.choice(self.by[self.r.rnd.choice(kinds or sorted(self.by))])

    def cold(self):
        """for every kind of box and of use a few uses at the same time"""
        out = []
        for k in sorted(self.of):
            out.append([self.r.rnd.choice(self.of[k]) for _ in range(8)])
        self.r.rnd.shuffle(out)
        return [dict(op="conc", subs=subs, sched=[], burst=1, loops=1, full=False) for subs in out]

    def same(self):
        """several uses of the same kind: of one box type, if it is a payload"""
        k = self.r.rnd.choice(sorted(self.by))
        a = self.one([k])
        more = [c for c in self.by[k] if c.get("type") == a.get("type") and c is not a]
        return a, (self.r.rnd.choice(more) if more else a)


def flatten(r, lines):
    """the records of single uses inside records of concurrent uses"""
    out = {}
    for l in lines:
        for o in json.loads(l).get("outs", []):
            out.setdefault(JUDGE[o["op"]], []).append(o)
    return out


def judged(r, lines, what):
    """the uses recorded under concurrency, judged by the specifications of the single uses"""
    for module, recs in sorted(flatten(r, lines).items()):
        for k, v in r.judge(module, [json.dumps(o, separators=(",", ":")) for o in recs]):
            if v == "REJECT":
                r.violations.append({"what": what, "module": module, "env": {}, "cmd": None, "record": json.dumps(recs[k])})


def C17(r):
    rounds = 1 if QUICK else 6
    scheds = r.gen("MConc", {"M_PROCS": 2, "M_STEPS": 6}) + r.gen("MConc", {"M_PROCS": 3, "M_STEPS": 3})
    if not QUICK:
        scheds += r.gen("MConc", {"M_PROCS": 2, "M_STEPS": 7})
    for b in range(rounds):
        pool = Pool(r, 60 if QUICK else 120, 700 + 11 * b)
        # every interleaving of the model
        cmds = []
        for s in (r.rnd.sample(scheds, 1500) if QUICK and len(scheds) > 1500 else scheds):
            subs = [pool.one() for _ in range(s["k"])]
            if r.rnd.random() < 0.5:
                subs[0], subs[1] = pool.same()
            cmds.append(dict(op="conc", subs=subs, sched=s["sched"], burst=r.rnd.choice([1, 1, 1, 2, 3, 6]), loops=1,
                             full=r.rnd.random() < 0.4))
        ls = r.conform("JConc", cmds, "an operation interleaved with others has another result than alone")
        judged(r, ls, "an operation interleaved with others does not do what is specified")
        # as it comes, from a cold start: the first uses of a process are concurrent
        for k in range(10 if QUICK else 25):
            cmds = []
            for _ in range(1 if k % 2 else 6):
                subs = [pool.one() for _ in range(r.rnd.choice([2, 8, 24]))]
                if r.rnd.random() < 0.4:
                    a, b2 = pool.same()
                    subs = [a, b2] * (len(subs) // 2)
                cmds.append(dict(op="conc", subs=subs, sched=[], burst=1, loops=r.rnd.choice([1, 3, 10]), full=False))
            r.conform("JConc", cmds, "an operation at the same time as others has another result than alone",
                      denv={"VERIF_WORKERS": "1"})
        # the same under the race detector
        for k in range(3 if QUICK else 8):
            cmds = pool.cold()
            for _ in range(15):
                subs = [pool.one() for _ in range(8)]
                if r.rnd.random() < 0.5:
                    a, b2 = pool.same()
                    subs = [a, b2] * 4
                cmds.append(dict(op="conc", subs=subs, sched=[], burst=1, loops=2, full=False))
            r.conform("JConc", cmds, "independent uses access the same memory without synchronisation", race=True,
                      denv={"VERIF_WORKERS": "1", "GORACE": "halt_on_error=1"})
        # values once obtained stay what they are
        cmds = []
        for _ in range(150 if QUICK else 600):
            decs = [c for c in (pool.one(["dec"]) for _ in range(12))]
            a, b2 = pool.one(["dec"]), None
            decs += [c for c in pool.by["dec"] if c["type"] == a["type"]][:6]
            decs += [dict(f=hx(r.rnd.choice(pool.fs))) for _ in range(3)]
            r.rnd.shuffle(decs)
            cmds.append(dict(op="hold", subs=decs))
        r.conform("JConc", cmds, "a value obtained from the library changes when the library is used again")
