"""C21 structures registered by a user of the library.

Declarations are drawn at random; each is written down twice, as a layout of the
specification (spec/UserLayouts.tla) and as Go source that is compiled into the driver."""
import json, os
from common import tier, seed

QUICK = tier() == "quick"
DYN, UNL, NOVER = -2, -1, 255
INTW = [8, 16, 32, 64]


class Struct:
    def __init__(self, name, root, own, full):
        self.name, self.root, self.own, self.full = name, root, own, full
        self.fields = []        # dicts: fd (for the specification), go (type), tag (list of strings), ord
        self.any = False
        self.before = "none"
        self.raw = False
        self.places = False     # several fields have the same place, and are declared among each other


class Maker:
    """one set of declarations"""

    def __init__(self, rnd, prefix):
        self.rnd, self.prefix = rnd, prefix
        self.structs, self.n, self.reg = [], 0, []

    def one(self, *l):
        return self.rnd.choice(l)

    def fname(self, s):
        self.n += 1
        if not s.root and self.rnd.random() < 0.05 and s.own and not any(f["fd"]["n"] == "Version" for f in s.fields):
            return "Version"
        return "F%d" % self.n

    # ------------------------------------------------------------- one field
    def add(self, s, cond, go, tag, **fd):
        n = fd.pop("n", None) or self.fname(s)
        fd = dict(fd, n=n, own=s.root or s.own)
        fd["fl"] = list(fd.get("fl", []))
        tag = list(tag)
        for k, v in cond.items():
            fd[k] = v
            if k in ("ver", "nver"):
                tag.append("%s=%d" % (k, v))
            elif k in ("opt", "nopt"):
                tag.append("%s=%s" % (k, self.one(str(v), "0x%x" % v, "0x%06X" % v)))
            elif k == "osrc":
                fd["dyn"] = True
                tag.append("opt=dynamic")
        if self.rnd.random() < 0.06 and fd["k"] in ("uint", "int"):
            fd["fl"].append("hidden")
            tag.append("hidden")
        elif self.rnd.random() < 0.06 and fd["k"] in ("uint", "arr") and "sp" not in fd:
            fd["fl"].append("const")
            tag.append("const=0")
        if self.rnd.random() < 0.06 and "extend" not in fd["fl"]:
            fd["txt"] = True
        s.fields.append(dict(fd=fd, go=go, tag=tag))
        return fd

    def width(self, sz, unsigned):
        ws = [w for w in INTW if w >= sz]
        if self.rnd.random() < 0.1:
            return self.rnd.choice(INTW)
        return self.rnd.choice(ws)

    def fmt(self, tag, fl):
        k = self.rnd.randrange(5)
        if k == 0:
            tag.append("hex")
            fl.append("hex")
        if k == 1:
            tag.append("dec")
            fl.append("dec")
        if k == 2 and self.rnd.random() < 0.2:
            tag += ["dec", "hex"]
            fl += ["dec", "hex"]

    def gotype(self, k, w, fl):
        if k == "bool":
            return "bool"
        if k == "str":
            return "string"
        if w == 64 and self.rnd.random() < 0.4:
            if k == "int":
                return "int"
            if self.rnd.random() < 0.5:
                fl.append("hex")
                return "uintptr"
            return "uint"
        return "%s%d" % (k, w)

    def size(self, s, cond, avail):
        """(sz, tag, extra, bits): a size of one element; bits None: a multiple of eight"""
        if avail["size"] and self.rnd.random() < 0.25:
            return DYN, "size=dynamic", dict(ssrc=self.rnd.choice(avail["size"]), smod=8, smul=8, sadd=8), None
        sz = self.one(self.rnd.randrange(1, 65), self.rnd.randrange(1, 17), 8, 16, 24, 32, 64)
        return sz, "size=%d" % sz, {}, sz

    def scalar(self, s, cond, avail, sz=None):
        """an integer or boolean; returns its bits"""
        if sz is None:
            sz, tag, extra, bits = self.size(s, cond, avail)
        else:
            tag, extra, bits = "size=%d" % sz, {}, sz
        k = self.one("uint", "uint", "uint", "int", "int", "bool")
        if k == "bool":
            self.add(s, cond, "bool", [tag], k="bool", w=8, sz=sz, **extra)
            return bits or 0
        w = self.width(64 if bits is None else sz, k == "uint")
        fl, t = [], [tag]
        self.fmt(t, fl)
        sp = {}
        if (s.root or s.own) and self.rnd.random() < 0.07 and k == "uint" and bits is not None and sz <= w:
            sp = dict(sp="not")
        elif (s.root or s.own) and self.rnd.random() < 0.05:
            sp = dict(sp="pad")
        self.add(s, cond, self.gotype(k, w, fl), t, k=k, w=w, sz=sz, fl=fl, **extra, **sp)
        return bits or 0

    def counter(self, s, cond, bits):
        fl = []
        w = self.width(bits, True)
        while w < bits:
            w = self.width(bits, True)
        return self.add(s, cond, self.gotype("uint", w, fl), ["size=%d" % bits], k="uint", w=w, sz=bits, fl=fl, hint="cnt")["n"]

    def element(self, s, cond, avail, depth):
        """(k, go, fd extras, tag, bits per element)"""
        r = self.rnd.random()
        if r < 0.18 and depth < 2:
            t, bits = self.nested(s, avail, depth, flat=True)
            return "struct", t.name, dict(sub=t.name), [], bits
        if r < 0.25:
            return "str", "string", {}, [], 0
        if r < 0.31:
            w = self.rnd.choice(INTW)
            fl, t = ["varint"], ["varint"]
            self.fmt(t, fl)
            return "uint", self.gotype("uint", w, fl), dict(w=w, sz=0, fl=fl), t, 0
        sz, tag, extra, bits = self.size(s, cond, avail)
        if self.rnd.random() < 0.35:
            sz, tag, extra, bits = 8, "size=8", {}, 8
        k = self.one("uint", "uint", "int", "bool")
        if bits == 8 and self.rnd.random() < 0.8:
            k = "uint"
        if k == "bool":
            return k, "bool", dict(w=8, sz=sz, **extra), [tag], bits
        w = 8 if bits == 8 and self.rnd.random() < 0.8 else self.width(64 if bits is None else sz, True)
        fl, t = [], [tag]
        if k == "uint" and w == 8 and self.rnd.random() < 0.4:
            f = self.one("string", "iso")
            fl.append(f)
            t.append({"iso": "iso639-2"}.get(f, f))
        else:
            self.fmt(t, fl)
        return k, self.gotype(k, w, fl), dict(w=w, sz=sz, fl=fl, **extra), t, bits

    def list(self, s, cond, avail, depth):
        """an array or a list; returns its bits modulo eight, or None when that is not known"""
        k, go, fd, tag, bits = self.element(s, cond, avail, depth)
        fixed = bits is not None
        if self.rnd.random() < 0.4:
            n = self.one(1, 2, 3, 4, 8, 16)
            if k == "uint" and fd.get("w") == 8 and "varint" not in fd["fl"] and self.rnd.random() < 0.25:
                n = self.one(16, 16, 10, 4)
                fd["fl"] = ["uuid"]
                tag = [t for t in tag if t not in ("string", "iso639-2", "dec", "hex")] + ["uuid"]
            self.add(s, cond, "[%d]%s" % (n, go), tag, k="arr", e=k, cnt=n, **fd)
            return (bits or 0) * n
        m = self.rnd.randrange(3)
        if m == 0:
            n = self.one(0, 1, 2, 3, 5)
            self.add(s, cond, "[]" + go, tag + ["len=%d" % n], k="slice", e=k, ln=n, **fd)
            return (bits or 0) * n
        if (bits or 0) % 8:         # a number of elements that is not fixed takes whole bytes
            if k == "struct":
                n = 8
                self.add(s, cond, "[]" + go, tag + ["len=%d" % n], k="slice", e=k, ln=n, **fd)
                return bits * n
            fd["sz"] = self.one(8, 16, 40)
            tag = [t for t in tag if not t.startswith("size")] + ["size=%d" % fd["sz"]]
        if m == 1 and avail["cnt"]:
            src = self.rnd.choice(avail["cnt"])
            extra = 0
        elif s.root or s.own:
            extra = self.one(3, 5, 8, 8, 11, 12)
            if k == "str":
                extra = min(extra, 8)
            src = self.counter(s, cond, extra)
        else:
            n = self.one(0, 1, 2)
            self.add(s, cond, "[]" + go, tag + ["len=%d" % n], k="slice", e=k, ln=n, **fd)
            return 0
        self.add(s, cond, "[]" + go, tag + ["len=dynamic"], k="slice", e=k, ln=DYN, lsrc=src, **fd)
        return extra

    def group(self, s, avail, depth, cond):
        """some fields of one condition that take whole bytes together"""
        bits = 0
        for _ in range(self.rnd.randrange(1, 5)):
            r = self.rnd.random()
            if r < 0.5:
                bits += self.scalar(s, cond, avail)
            elif r < 0.56:
                w = self.rnd.choice(INTW)
                fl, t = ["varint"], ["varint"]
                self.fmt(t, fl)
                self.add(s, cond, self.gotype("uint", w, fl), t, k="uint", w=w, sz=0, fl=fl)
            elif r < 0.63:
                cp = {}
                tag = [self.one("string", "string", "size=8,string")]
                if bits % 8 == 0 and self.rnd.random() < 0.25:
                    tag, cp = ["string=c_p"], dict(fl=["string_c_p"], hint=self.one("", "rest0"))
                    if not (s.root or s.own):
                        cp["hint"] = ""
                    self.cp = True
                self.add(s, cond, "string", tag, k="str", **cp)
            elif r < 0.85:
                bits += self.list(s, cond, avail, depth)
            elif depth < 2:
                t, b = self.nested(s, avail, depth)
                ptr = self.rnd.random() < 0.4
                fl, tag = [], []
                if self.rnd.random() < 0.3:
                    fl, tag = ["extend"], ["extend"]
                extra = {}
                if b is not None:
                    if b % 8 == 0 and b and self.rnd.random() < 0.5:
                        extra, tag = dict(sz=b), tag + ["size=%d" % b]
                    bits += b
                else:       # header of t.hb bits, then bytes
                    k = self.one(0, 8, 24) if t.hb else self.one(8, 8, 24)     # (size 0 is no size)
                    if avail["size"] and self.rnd.random() < 0.5:
                        extra = dict(sz=DYN, ssrc=self.rnd.choice(avail["size"]), smod=8, smul=8, sadd=t.hb + k)
                        tag = tag + ["size=dynamic"]
                    else:
                        extra, tag = dict(sz=t.hb + k + 8), tag + ["size=%d" % (t.hb + k + 8)]
                self.add(s, cond, ("*" if ptr else "") + t.name, tag, k="ptr" if ptr else "struct", sub=t.name, fl=fl, **extra)
        if bits % 8 and not (self.rag and self.rnd.random() < 0.5):
            self.scalar(s, cond, avail, 8 - bits % 8)

    def nested(self, parent, avail, depth, flat=False):
        """a structure; bits: of a value if that is fixed, None: t.hb bits and then bytes to its end"""
        own = self.rnd.random() < 0.5
        t = Struct("%sN%d" % (self.prefix, len(self.structs)), False, own, False)
        self.structs.append(t)
        kids = dict(cnt=[], size=[], opt=[]) if own or not parent.root else avail
        kids = {k: [x for x in v] for k, v in kids.items()}
        r = self.rnd.random()
        if flat or r < 0.4:
            bits = 0
            for _ in range(self.rnd.randrange(1, 4)):
                bits += self.scalar(t, {}, dict(cnt=[], size=[], opt=[]))
                if self.rnd.random() < 0.2:     # bytes that need not start at a byte
                    n = self.one(1, 2, 3)
                    go, tag, fd = self.one(("[]uint8", ["len=%d" % n], dict(k="slice", ln=n)), ("[%d]uint8" % n, [], dict(k="arr", cnt=n)))
                    self.add(t, {}, go, ["size=8"] + tag, e="uint", w=8, sz=8, **fd)
                    bits += 8 * n
            for f in t.fields:      # every bit counted
                if f["fd"].get("sp") == "pad":
                    bits += 8
            if self.rnd.random() < 0.6 and bits % 8:
                bits += self.pad(t, 8 - bits % 8)
            return t, bits
        if r < 0.6:
            bits = 0
            for _ in range(self.rnd.randrange(0, 3)):
                bits += self.scalar(t, {}, dict(cnt=[], size=[], opt=[]))
            for f in t.fields:
                if f["fd"].get("sp") == "pad":
                    bits += 8
            if bits % 8:
                bits += self.pad(t, 8 - bits % 8)
            t.hb = bits
            self.add(t, {}, "[]uint8", ["size=8"], k="slice", e="uint", w=8, sz=8, hb=bits)
            return t, None
        if own:
            self.sources(t, kids)
        for _ in range(self.rnd.randrange(1, 3)):
            self.group(t, kids, depth + 1, self.cond(t, kids))
        return t, 0

    def pad(self, t, n):
        self.add(t, {}, "uint8", ["size=%d" % n], k="uint", w=8, sz=n)
        return n

    def sources(self, s, avail):
        """controlling fields at the start, whole bytes"""
        bits = 0
        for kind in ("size", "opt", "cnt"):
            if self.rnd.random() < 0.6:
                n = self.one(1, 2, 3, 4, 5) if kind != "cnt" else self.one(4, 6, 8)
                if kind == "cnt":
                    avail[kind].append(self.counter(s, {}, n))
                else:
                    avail[kind].append(self.add(s, {}, "uint%d" % self.one(8, 16), ["size=%d" % n],
                                                k="uint", w=8, sz=n)["n"])
                    s.fields[-1]["fd"]["w"] = int(s.fields[-1]["go"][4:])
                bits += n
        if bits % 8:
            self.pad(s, 8 - bits % 8)

    def cond(self, s, avail):
        r = self.rnd.random()
        c = {}
        if r < 0.45:
            return c
        k = self.rnd.randrange(6)
        if k == 0 or k == 5:
            c["ver"] = self.one(0, 0, 1, 1, 2, 200, 255)
        if k == 1:
            c["nver"] = self.one(0, 1, 1, 2, 255)
        if k in (2, 5):
            c["opt"] = self.one(1, 2, 0x100, 0x10000, 0x800000, 0x000201, 0xffffff)
        if k == 3:
            c["nopt"] = self.one(1, 2, 0x100, 0x10000, 0x800000, 0x000201)
        if k in (4, 5) and avail["opt"] and "opt" not in c:
            c["osrc"] = self.rnd.choice(avail["opt"])
        return c

    # ------------------------------------------------------------------ boxes
    def plain(self, full):
        """a box with one field of a byte, or of that kind with a version"""
        s = Struct("%sB%d" % (self.prefix, len(self.structs)), True, True, full)
        self.structs.append(s)
        if full:
            s.fields.append(dict(fd=dict(n="FullBox", k="struct", sub="FullBox", fl=["extend"]), go="", tag=["extend"]))
        self.add(s, {}, "uint8", ["size=8"], k="uint", w=8, sz=8)
        return s

    def box(self):
        full = self.rnd.random() < 0.6
        s = Struct("%sB%d" % (self.prefix, len(self.structs)), True, True, full)
        self.structs.append(s)
        self.rag = self.rnd.random() < 0.08
        self.cp = False
        s.raw = self.rag
        avail = dict(cnt=[], size=[], opt=[])
        if full:
            s.fields.append(dict(fd=dict(n="FullBox", k="struct", sub="FullBox", fl=["extend"]), go="", tag=["extend"]))
        else:
            s.before = self.one("none", "none", "none", "none", "skip", "magic")
            s.raw = s.raw or s.before != "none"
            s.any = self.rnd.random() < 0.3
        if self.rnd.random() < 0.7:
            self.sources(s, avail)
        for _ in range(self.rnd.randrange(1, 5)):
            self.group(s, avail, 0, self.cond(s, avail))
        if self.cp:
            s.raw = True
        r = self.rnd.random()
        c = self.cond(s, avail)
        if r < 0.25:
            k, go, fd, tag, bits = "uint", "uint8", dict(w=8, sz=8), ["size=8"], 8
            while True:
                k, go, fd, tag, bits = self.element(s, c, avail, 1)
                if bits is None or bits % 8 == 0:
                    break
            if k == "struct" and bits:
                if self.rnd.random() < 0.7:
                    fd["sz"], tag = bits, tag + ["size=%d" % bits]
            self.add(s, c, "[]" + go, tag, k="slice", e=k, ln=UNL, **fd)
        elif r < 0.4:
            self.add(s, c, "string", ["boxstring"], k="str", fl=["boxstring"])
        elif r < 0.6:
            n = self.one(8, 16, 24, 32, 40, 64)
            self.add(s, c, "bool", [self.one("size=8", "size=1"), "hidden"], k="bool", w=8, sz=8, fl=["hidden"], sp="left",
                     hint="true" if n >= 32 else "false")
            self.add(s, c, "uint64", ["size=%d" % n], k="uint", w=64, sz=n)
            s.fields[-2]["fd"].pop("txt", None)
        return s

    def named(self, hint):
        """a box with a string that may be preceded by its length"""
        s = Struct("%sB%d" % (self.prefix, len(self.structs)), True, True, False)
        self.structs.append(s)
        self.add(s, {}, "[]uint8", ["size=8", "len=%d" % (hint != "")], k="slice", e="uint", w=8, sz=8, ln=int(hint != ""))
        self.add(s, {}, "string", ["string=c_p"], k="str", fl=["string_c_p"], hint=hint)
        self.add(s, {}, "[]uint8", ["size=8"], k="slice", e="uint", w=8, sz=8, ln=UNL)
        s.raw = True
        return s

    def slanted(self):
        """a box with a structure of whole bytes that starts within a byte, and bytes in that structure"""
        t = Struct("%sN%d" % (self.prefix, len(self.structs)), False, False, False)
        s = Struct("%sB%d" % (self.prefix, len(self.structs) + 1), True, True, False)
        self.structs += [t, s]
        a = self.one(1, 2, 3, 5, 6, 7)
        b = self.one(a, a, 8 - a, self.one(1, 2, 3, 4, 5, 6, 7))
        self.pad(t, b)
        self.add(t, {}, "[]uint8", ["size=8", "len=2"], k="slice", e="uint", w=8, sz=8, ln=2)
        self.pad(t, 8 - b)
        self.pad(s, a)
        self.add(s, {}, t.name, ["size=24"], k="struct", sub=t.name, sz=24)
        self.pad(s, 8 - a)
        return s

    def many(self):
        """a box with many fields, of which several have the same place"""
        s = Struct("%sB%d" % (self.prefix, len(self.structs)), True, True, False)
        self.structs.append(s)
        for _ in range(self.one(13, 20, 31, 40)):
            self.add(s, {}, "uint8", ["size=8"], k="uint", w=8, sz=8)
        s.places = True
        return s

    def varints(self):
        """a box with integers of variable length"""
        s = Struct("%sB%d" % (self.prefix, len(self.structs)), True, True, False)
        self.structs.append(s)
        for w, hexa in ((64, True), (32, False), (64, False)):
            self.add(s, {}, "uint%d" % w, ["varint"] + ["hex"] * hexa, k="uint", w=w, sz=0, fl=["varint"] + ["hex"] * hexa)
        self.add(s, {}, "[]uint8", ["size=8"], k="slice", e="uint", w=8, sz=8, ln=UNL)
        return s

    def register(self, s, k):
        """types of box s: of its own, sometimes also one that another box or the library has"""
        vers = []
        if s.full and self.rnd.random() < 0.6:
            vers = sorted(self.rnd.sample([0, 1, 2, 200], self.rnd.randrange(1, 4)))
        elif not s.full and self.rnd.random() < 0.2:
            vers = [7]          # means nothing without a version field
        pred = self.one("always", "always", "always", "qt", "wave", "underUdta", "underIlstMeta", "never")
        typ = list(("u%03d" % k).encode())
        self.reg.append(dict(type=typ, layout=s.name, versions=vers, pred=pred, ex=pred != "always" or self.rnd.random() < 0.2))
        s.type = typ
        if s.any:
            for j in range(self.rnd.randrange(0, 3)):
                t = list(self.one("w%03d" % k, "u%03d" % self.rnd.randrange(k + 1)).encode())
                self.reg.append(dict(type=t, layout=s.name, versions=[], pred=self.one("always", "qt", "wave"), ex=True))

    # ----------------------------------------------------------------- output
    def spec(self):
        lay = {}
        for s in self.structs:
            lay[s.name] = [dict(f["fd"]) for f in s.fields]
        roots = [s for s in self.structs if s.root]
        return "\n".join(
            ["---------------------------- MODULE UserLayouts ----------------------------", "EXTENDS W64, Layouts", ""] +
            ["L_%s == <<\n  %s\n>>\n" % (n, ",\n  ".join(tla_fd(f) for f in fs)) for n, fs in lay.items()] +
            ["UserLayout == [\n  %s]" % ",\n  ".join("%s |-> L_%s" % (n, n) for n in lay),
             "UserRegistry == <<\n  %s>>" % ",\n  ".join(
                 "[type |-> %s, layout |-> %s, versions |-> {%s}, pred |-> %s]" %
                 (tla(x["type"]), tla(x["layout"]), ", ".join(map(str, x["versions"])), tla(x["pred"])) for x in self.reg),
             "UserBefore == [%s]" % ", ".join("%s |-> %s" % (s.name, tla(s.before)) for s in roots),
             "UserRaw == {%s}" % ", ".join(tla(s.name) for s in roots if s.raw),
             'BeforeOf(s) == IF s \\in DOMAIN UserBefore THEN UserBefore[s] ELSE "none"',
             "RawBox(s) == s \\in UserRaw",
             "=" * 77]) + "\n"

    def go(self):
        out = ["//go:build go1.22", "", "package main", "", "import (", '\t"errors"', '\t"io"', '\t"strconv"', "",
               '\t"github.com/abema/go-mp4"', '\t"github.com/abema/go-mp4/internal/bitio"', ")", "",
               "var _ = io.EOF", "var _ bitio.Reader", "var _ = strconv.Itoa", 'var errUser = errors.New("user")', ""]
        for s in self.structs:
            out += self.go_struct(s)
        out += ["func init() {"]
        for x in self.reg:
            s = [y for y in self.structs if y.name == x["layout"]][0]
            t = "mp4.BoxType{%d, %d, %d, %d}" % tuple(x["type"])
            f = PRED[x["pred"]]
            args = ["&%s{}" % s.name] + ([t] if s.any else []) + ([f] if x["ex"] else []) + [str(v) for v in x["versions"]]
            out.append("\tmp4.Add%sBoxDef%s(%s)" % ("AnyType" if s.any else "", "Ex" if x["ex"] else "", ", ".join(args)))
        out += ["}"]
        return "\n".join(out) + "\n"

    def desc(self, s):
        """structures below s whose rules are those of the box s"""
        out = []
        for f in s.fields:
            sub = [t for t in self.structs if t.name == f["fd"].get("sub")]
            for t in sub:
                if not t.own:
                    out.append(t)
                out += self.desc(t)
        return out

    def go_struct(self, s):
        out = ["type %s struct {" % s.name]
        if s.root:
            out.append("\tmp4.AnyTypeBox" if s.any else "" if s.full else "\tmp4.Box")
        elif s.own:
            out.append("\tmp4.BaseCustomFieldObject")
        # declared in another order than they are in the file
        n = len(s.fields)
        perm = list(range(n))
        style = self.rnd.randrange(4)
        if style == 0:
            self.rnd.shuffle(perm)
        step = self.one(1, 1, 3)
        ties = style == 3
        group = [i * step - (2 if style == 1 else 0) for i in range(n)]
        if s.places:
            k = self.one(2, 3, 4)
            group = sorted(self.rnd.randrange(k) - 1 for _ in range(n))
            slots = group[:]
            self.rnd.shuffle(slots)
            queues = {g: [i for i in range(n) if group[i] == g] for g in group}
            perm, ties = [queues[g].pop(0) for g in slots], False
        decl = []
        for i, f in enumerate(s.fields):
            order = 5 if ties else group[i]
            tag = [str(order)] + f["tag"]
            if ties and self.rnd.random() < 0.5 and order == 0:
                tag = f["tag"]
            if style == 2:
                self.rnd.shuffle(tag)
            decl.append("\t%s %s `mp4:\"%s\"`" % ("mp4.FullBox" if f["fd"]["n"] == "FullBox" else f["fd"]["n"], f["go"],
                                                  self.one(",", ", ").join(tag)))
        out += [decl[p] for p in perm] + ["}", ""]
        name = s.name
        if s.root and not s.any:
            out += ["func (*%s) GetType() mp4.BoxType { return mp4.BoxType{%d, %d, %d, %d} }" % ((name,) + tuple(s.type)), ""]
        if not (s.root or s.own):
            return out
        mine = [f["fd"] for f in s.fields]
        all_ = mine + ([f["fd"] for t in self.desc(s) for f in t.fields] if s.root else [])
        seen, uniq = set(), []
        for fd in all_:
            if fd["n"] not in seen:
                seen.add(fd["n"])
                uniq.append(fd)
        def method(head, cases, tail):
            if cases:
                out.extend(["func (b *%s) %s {" % (name, head), "\tswitch name {"] + cases + ["\t}", "\t" + tail, "}", ""])
        method("GetFieldSize(name string, ctx mp4.Context) uint",
               ['\tcase "%s":\n\t\treturn uint(int(b.%s%%%d)*%d + %d)' % (f["n"], f["ssrc"], f["smod"], f["smul"], f["sadd"])
                for f in uniq if f.get("ssrc")], 'panic("size of " + name)')
        method("GetFieldLength(name string, ctx mp4.Context) uint",
               ['\tcase "%s":\n\t\treturn uint(b.%s)' % (f["n"], f["lsrc"]) for f in uniq if f.get("lsrc")], 'panic("length of " + name)')
        method("IsOptFieldEnabled(name string, ctx mp4.Context) bool",
               ['\tcase "%s":\n\t\treturn b.%s != 0' % (f["n"], f["osrc"]) for f in uniq if f.get("osrc")], 'panic("presence of " + name)')
        method("StringifyField(name string, indent string, depth int, ctx mp4.Context) (string, bool)",
               ['\tcase "%s":\n\t\treturn "own_%s_" + strconv.Itoa(len(indent)) + "_" + strconv.Itoa(depth), true' % (f["n"], f["n"])
                for f in uniq if f.get("txt")], 'return "", false')
        method("IsPString(name string, bytes []byte, remainingSize uint64, ctx mp4.Context) bool",
               ['\tcase "%s":\n\t\treturn remainingSize == 0' % f["n"] for f in mine if f.get("hint") == "rest0"], "return true")
        go = {f["fd"]["n"]: f["go"] for f in s.fields}
        rd, wr = [], []
        for f in mine:
            n, sp = f["n"], f.get("sp")
            if sp == "not":
                sz = f["sz"]
                rd.append('''	case "%s":
		if leftBits < %d {
			return 0, false, errUser
		}
		d, err := r.ReadBits(%d)
		if err != nil {
			return 0, false, err
		}
		v := uint64(0)
		for _, x := range d {
			v = v<<8 | uint64(x)
		}
		b.%s = %s(^v & (^uint64(0) >> %d))
		return %d, true, nil''' % (n, sz, sz, n, go[n], 64 - sz, sz))
                wr.append('''	case "%s":
		v := ^uint64(b.%s)
		d := []byte{byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
		return %d, true, w.WriteBits(d, %d)''' % (n, n, sz, sz))
            if sp == "pad":
                rd.append('''	case "%s":
		if leftBits < 8 {
			return 0, false, errUser
		}
		d, err := r.ReadBits(8)
		if err == nil && d[0] != 0x77 {
			err = errUser
		}
		return 8, false, err''' % n)
                wr.append('''	case "%s":
		return 8, false, w.WriteBits([]byte{0x77}, 8)''' % n)
            if sp == "left":
                rd.append('''	case "%s":
		b.%s = leftBits >= 32
		return 0, true, nil''' % (n, n))
                wr.append('''	case "%s":
		return 0, true, nil''' % n)
        method("OnReadField(name string, r bitio.ReadSeeker, leftBits uint64, ctx mp4.Context) (uint64, bool, error)", rd, "return 0, false, nil")
        method("OnWriteField(name string, w bitio.Writer, ctx mp4.Context) (uint64, bool, error)", wr, "return 0, false, nil")
        if s.before == "skip":
            out += ["func (b *%s) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {" % name,
                    "\tif size < 2 {", "\t\treturn 0, false, errUser", "\t}",
                    "\tif _, err := io.ReadFull(r, make([]byte, 2)); err != nil {", "\t\treturn 0, false, err", "\t}",
                    "\treturn 2, false, nil", "}", ""]
        if s.before == "magic":
            out += ["func (b *%s) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {" % name,
                    "\tif size < 1 {", "\t\treturn 0, false, nil", "\t}", "\tx := make([]byte, 1)",
                    "\tif _, err := io.ReadFull(r, x); err != nil {", "\t\treturn 0, false, err", "\t}",
                    "\tif x[0] == 0xee {", "\t\treturn 1, true, nil", "\t}",
                    "\t_, err := r.Seek(-1, io.SeekCurrent)", "\treturn 0, false, err", "}", ""]
        return out


def tla(x):
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x) if x >= 0 else "(%d)" % x
    if isinstance(x, str):
        return '"%s"' % x
    return "<<%s>>" % ", ".join(map(tla, x))


def tla_fd(f):
    return "[FD EXCEPT %s]" % ", ".join(
        "!.%s = %s" % (k, "{%s}" % ", ".join(map(tla, v)) if k == "fl" else tla(v)) for k, v in f.items())


PRED = {
    "always": "func(mp4.Context) bool { return true }",
    "qt": "func(c mp4.Context) bool { return c.IsQuickTimeCompatible }",
    "wave": "func(c mp4.Context) bool { return c.UnderWave }",
    "underUdta": "func(c mp4.Context) bool { return c.UnderUdta }",
    "underIlstMeta": "func(c mp4.Context) bool { return c.UnderIlstMeta }",
    "never": "func(mp4.Context) bool { return false }",
}


def declarations(r, n, prefix="U"):
    m = Maker(r.rnd, prefix)
    for k in range(n):
        s = m.box()
        m.register(s, k)
    for k, s in enumerate([m.slanted(), m.slanted(), m.many(), m.varints(), m.named(""), m.named("rest0")], n):
        m.reg.append(dict(type=list(b"p%03d" % k), layout=s.name, versions=[], pred="always", ex=False))
        s.type = m.reg[-1]["type"]
    return m


def pascal(r, m):
    """payloads of the boxes with a string that may be preceded by its length"""
    for s in m.structs[-2:]:
        pre = [7] * s.fields[0]["fd"]["ln"]
        for n in list(range(0, 20)) + [31, 32, 63, 64, 127, 128, 129, 253, 254, 255, 256]:
            for first in sorted({n, n - 1, n + 1, n - 2, 255, 0, n // 2}):
                if 0 <= first < 256:
                    p = pre + [first] + [r.rnd.choice([65, 66, 97, 200, 0 if r.rnd.random() < 0.1 else 67]) for _ in range(n)]
                    yield dict(op="dec", type=list(s.type), ctx={}, pre="00", post="41" * 5, re=False, p=hx(p), api="direct", kind="name")


def wide(r, m):
    """payloads of the box with integers of variable length"""
    s, rnd = m.structs[-3], r.rnd
    for n in range(0, 12):
        for _ in range(6):
            p = b""
            for k in (n, rnd.randrange(10), rnd.choice([0, 1, 4, 5, 9])):
                p += bytes(rnd.choice([0x80, 0x80, 0x81, 0xff, 0xc0, rnd.randrange(128, 256)]) for _ in range(k)) + bytes([rnd.choice([0, 1, 0x7f, rnd.randrange(128)])])
            p += bytes(rnd.randrange(3))
            yield dict(op="dec", type=list(s.type), ctx={}, pre="00", post="8141", re=False, p=hx(p[:rnd.choice([len(p), len(p), n + 1, n])]), api="any", kind="wide")


def hx(b):
    return bytes(b).hex()


def bits(r, n):
    """calls of a bit writer, and of a bit reader over random bytes"""
    from p_struct import READERS
    cmds = []
    for _ in range(n):
        rnd, ops = r.rnd, []
        if rnd.random() < 0.4:
            part = 0
            for _ in range(rnd.randrange(1, 25)):
                b = bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 1, 2, 4, 8, 9])))
                k = rnd.random()
                if k < 0.6:
                    w = rnd.choice([rnd.randrange(0, 8 * len(b) + 1), 8 * len(b), 8 - part if len(b) and part else 1, 1])
                    ops.append(dict(e="wbits", b=hx(b), n=w))
                    part = (part + w) % 8
                elif k < 0.8:
                    ops.append(dict(e="wbit", b=rnd.choice(["00", "01"]), n=1))
                    part = (part + 1) % 8
                else:
                    ops.append(dict(e="wbytes", b=hx(b) if rnd.random() < 0.9 else "", n=0))
            cmds.append(dict(op="bits", side="w", reader="", data="", ops=ops))
            continue
        data, left = bytes(rnd.randrange(256) for _ in range(rnd.randrange(0, 40))), 0
        for _ in range(rnd.randrange(1, 30)):
            k = rnd.random()
            if k < 0.5:
                n = rnd.choice([left, rnd.randrange(0, 20), rnd.randrange(0, 70), 8, 1])
                ops.append(dict(e="rbits", n=n))
                left = (left - n) % 8
            elif k < 0.65:
                ops.append(dict(e="rbit", n=1))
                left = (left - 1) % 8
            elif k < 0.8:
                ops.append(dict(e="rbytes", n=rnd.randrange(1, 12)))
            else:
                w = rnd.randrange(3)
                off = rnd.choice([0, 1, -1, rnd.randrange(-45, 45)]) if w else rnd.randrange(-1, 41)
                ops.append(dict(e="seek", n=0, off=off - (3 if w == 2 else 0), whence=w))
                left = 0 if w != 1 else left
        cmds.append(dict(op="bits", side="r", reader=rnd.choice(READERS), data=hx(data), ops=ops))
    return cmds


def C21(r):
    import p_codec
    r.check_model("MBitio", env={"M_OPS": 4 if QUICK else 5}, min_states=1000)
    r.conform("JBitio", bits(r, 1500 if QUICK else 20000), "bits are not read or written as they should be")
    for b in range(2 if QUICK else 10):
        m = declarations(r, 40 if QUICK else 50, "U")
        r.use(dict(go=m.go(), spec=m.spec()))
        cmds, texts = [], []
        for c in p_codec.cases(r, (1200 if QUICK else 2400), 3, 300 + b, user=1):
            base = dict(type=c["type"], ctx=c["ctx"])
            cmds.append(dict(base, op="enc", mode=c["mode"], v=c["v"], post=p_codec.after(r)))
            if c["est"] == "ok":
                dec = dict(base, op="dec", pre=p_codec.around(r), post=p_codec.after(r), re=True)
                if c["p"] and c["p"][0] == 0xEE:    # taken by BeforeUnmarshal: pointers stay nil
                    dec["re"] = False
                cmds.append(dict(dec, p=hx(c["p"]), api=r.rnd.choice(["any", "direct"]), kind="canonical"))
                for q in p_codec.mutants(r, c["p"], 1):
                    cmds.append(dict(dec, p=hx(q), re=False, kind="changed"))
            texts.append(dict(base, op="str", v=c["v"], inds=["", r.rnd.choice(["20", "09", "2020", ""])]))
        cmds += pascal(r, m)
        cmds += wide(r, m)
        r.conform("JCodec", cmds, "a structure of the user is not coded as its tags say")
        r.conform("JText", texts, "the text of a structure of the user is not what its tags say")
    r.user = None
