"""Shared machinery of the checks: building the driver, running TLC, judging."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolFailure(Exception):
    """The machinery (not the code under test) failed: exit code 2."""


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


class Run:
    """One run of a check: scratch directory, driver, counters."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.rnd = random.Random("%s/%d" % (pid, seed()))
        self.n = 0
        self.cov = {"evaluations": 0}
        self.violations = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.built = {}
        self.evalfails = 0
        self.known_hits = {}
        self.distinct = set()
        self.user = None

    def use(self, decl):
        """Compile these declarations of a user of the library into the driver, and give them to TLC."""
        go, spec = self.path("user.go"), self.path("spec")
        with open(go, "w") as f:
            f.write(decl["go"])
        shutil.copytree(SPEC, spec)
        with open(os.path.join(spec, "UserLayouts.tla"), "w") as f:
            f.write(decl["spec"])
        self.user = dict(decl, gofile=go, specdir=spec)

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%03d-%s" % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------- building
    def build(self, race=False):
        key = (race, self.user["gofile"] if self.user else None)
        if key in self.built:
            return self.built[key]
        out = self.path("bin-race" if race else "bin")
        os.makedirs(out)
        ov = os.path.join(out, "overlay.json")
        d = os.path.join(HERE, "driver")
        rep = {os.path.join(REPO, "cmd/mp4tool/verifdriver", f): os.path.join(d, f)
               for f in sorted(os.listdir(d)) if f.endswith(".go")}
        if self.user:
            rep[os.path.join(REPO, "cmd/mp4tool/verifdriver", "zz_user.go")] = self.user["gofile"]
        with open(ov, "w") as f:
            json.dump({"Replace": rep}, f)
        env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
                   CGO_ENABLED="1" if race else "0")
        cmds = [["go", "build"] + (["-race"] if race else []) +
                ["-buildvcs=false", "-overlay", ov, "-o", os.path.join(out, "driver"), "./cmd/mp4tool/verifdriver"]]
        if not race and not self.user:
            cmds.append(["go", "build", "-buildvcs=false", "-o", os.path.join(out, "mp4tool"), "./cmd/mp4tool"])
        for c in cmds:
            p = subprocess.run(c, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise ToolFailure("build failed: %s\n%s" % (" ".join(c), p.stdout))
        self.built[key] = out
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=8, heap="5g", extra=(), timeout=880):
        meta = self.path("meta")
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-nowarning",
               "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", (cfg or module) + ".cfg",
               *extra, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=self.user["specdir"] if self.user else SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolFailure("TLC timed out on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout.decode("utf-8", "replace")
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return p.returncode, out, gen, dist

    def gen(self, module, env, cfg=None, tag="CASE"):
        """Run a generating specification; returns the printed cases, sorted."""
        if "GEN_SALT" in env:        # the generators compute with 31 bits
            env = dict(env, GEN_SALT=int(env["GEN_SALT"]) % 1999)
        rc, out, gen, dist = self.tlc(module, cfg, env)
        cases = []
        for line in out.splitlines():
            if line.startswith('"' + tag + " "):
                cases.append(json.loads(unquote(line)[len(tag) + 1:]))
            elif line.startswith('"SPECBUG'):
                raise ToolFailure("the specification contradicts itself: " + line[:2000])
        if rc != 0:
            raise ToolFailure("TLC failed on %s:\n%s" % (module, tail(out)))
        self.states += dist
        self.transitions += max(0, gen - 1)
        if os.environ.get("VERIF_TIMES"):
            print("  %-10s %5d cases by %.1f s" % (module, len(cases), time.time() - self.t0))
        cases.sort(key=lambda c: ("%09d" % c["i"], "") if isinstance(c.get("i"), int) else (json.dumps(c.get("i", 0)), json.dumps(c)))
        return cases

    def check_model(self, module, cfg=None, env=None, extra=(), min_states=1):
        """Model-check a configuration of the specification itself."""
        rc, out, gen, dist = self.tlc(module, cfg, env, extra=extra)
        if rc != 0:
            raise ToolFailure("model %s (%s) fails its own properties:\n%s" % (module, cfg, tail(out)))
        if dist < min_states:
            raise ToolFailure("model %s (%s): only %d states" % (module, cfg, dist))
        self.states += dist
        self.transitions += gen
        return dist

    # --------------------------------------------------------------- driver
    def drive(self, cmds, race=False, env=None, timeout=600):
        """Run commands through the implementation; returns the record file lines."""
        out = self.build(race)
        ci, co = self.path("cmds.ndjson"), self.path("recs.ndjson")
        with open(ci, "w") as f:
            for c in cmds:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        e = dict(os.environ)
        e["VERIF_MP4TOOL"] = os.path.join(out, "mp4tool")
        e["VERIF_SCRATCH"] = self.dir
        e["GOMEMLIMIT"] = "6GiB"
        e.update(env or {})
        try:
            p = subprocess.run([os.path.join(out, "driver"), ci, co], env=e, cwd=self.dir,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolFailure("driver timed out")
        if p.returncode != 0:
            raise DriverCrash(p.returncode, p.stdout.decode("utf-8", "replace"), ci)
        with open(co) as f:
            lines = f.read().splitlines()
        if len(lines) != len(cmds):
            raise ToolFailure("driver returned %d records for %d commands" % (len(lines), len(cmds)))
        os.remove(ci)
        os.remove(co)
        self.cov["evaluations"] += len(lines)
        return lines

    # ---------------------------------------------------------------- judge
    def judge(self, module, lines, env=None, shards=None):
        """Let TLC judge the records against the specification.

        Returns [(index, verdict)] of the records that are not accepted;
        verdict is "REJECT" or the name of a known finding."""
        if not lines:
            return []
        total = sum(map(len, lines))
        if shards is None:
            shards = 1 if total < 1500000 else min(4, 1 + total // 3000000)
        idx = list(range(len(lines)))
        parts = [idx[k::shards] for k in range(shards)]
        parts = [p for p in parts if p]
        res = []

        def one(part):
            # TLC's JSON reader keeps everything in memory: bounded pieces
            out, piece, size, pieces = [], [], 0, []
            for k in part:
                if size + len(lines[k]) > 24000000 and piece:
                    pieces.append(piece)
                    piece, size = [], 0
                piece.append(k)
                size += len(lines[k])
            pieces.append(piece)
            for piece in pieces:
                out += [(piece[k], v) for k, v in
                        self._judge1(module, [lines[k] for k in piece], env, max(2, 8 // len(parts)))]
            return out

        with ThreadPoolExecutor(len(parts)) as ex:
            for r in ex.map(one, parts):
                res += r
        return sorted(res)

    def _judge1(self, module, lines, env, workers):
        f = self.path("trace.ndjson")
        with open(f, "w") as h:
            h.write("\n".join(lines) + "\n")
        e = dict(env or {})
        e["TRACE"] = f
        rc, out, gen, dist = self.tlc(module, "Judge", e, workers=workers)
        os.remove(f)
        bad = {int(m.group(1)) - 1: "REJECT" for m in re.finditer(r'<<"REJECT", (\d+)', out)}
        for m in re.finditer(r'<<"KNOWN", (\d+), "([^"]+)"', out):
            bad[int(m.group(1)) - 1] = m.group(2)
        if rc != 0:
            # the specification cannot make sense of a record: that record is rejected
            # and the rest is judged again
            m = re.search(r"Error: (Evaluating invariant|The behavior up to this point|The error occurred when)", out)
            idx = re.findall(r"^/\\ i = (\d+)", out, re.M)
            k = int(idx[-1]) if idx else 0
            if not m or k < 1 or k > len(lines):
                raise ToolFailure("TLC failed judging %s:\n%s" % (module, tail(out)))
            if os.environ.get("VERIF_DEBUG"):
                print(tail(out, 60))
                print(lines[k - 1][:3000])
            self.evalfails += 1
            if self.evalfails > 5:
                return [(k - 1, "REJECT")]
            rest = [x for x in range(len(lines)) if x != k - 1]
            return [(k - 1, "REJECT")] + [(rest[a], b) for a, b in
                                          self._judge1(module, [lines[x] for x in rest], env, workers)] if rest \
                else [(k - 1, "REJECT")]
        ends = set(re.findall(r'<<"END", (\d+)>>', out))
        if ends:        # a judge that takes one transition per event: every chain must reach its end
            if len(ends) != 32:
                raise ToolFailure("judge %s stopped early (%d of 32 chains ended)\n%s" % (module, len(ends), tail(out)))
        elif dist != len(lines) + 8:
            raise ToolFailure("judge %s looked at %d of %d records" % (module, dist - 8, len(lines)))
        self.states += dist
        self.transitions += len(lines)
        self.traces += len(lines)
        return sorted(bad.items())

    # ---------------------------------------------------------- conformance
    def conform(self, module, cmds, what, env=None, race=False, denv=None, timeout=600, shards=None, post=None):
        """Replay commands into the implementation and judge what it did."""
        if not cmds:
            return []
        try:
            lines = self.drive(cmds, race=race, env=denv, timeout=timeout)
        except DriverCrash as x:
            if x.rc == 3:
                raise ToolFailure(str(x))
            self.violations.append({"what": what + ": the program crashed", "module": module, "env": env or {},
                                    "cmd": None, "cmds": open(x.cmds).read().splitlines()[:2000], "record": x.out[-4000:],
                                    "race": race, "denv": denv or {}})
            return []
        if post:
            lines = post(lines)
        t1 = time.time()
        verdicts = self.judge(module, lines, env, shards)
        if os.environ.get("VERIF_TIMES"):
            print("  %-10s %5d records %8d bytes: driven by %.1f s, judged in %.1f s" %
                  (module, len(lines), sum(map(len, lines)), t1 - self.t0, time.time() - t1))
        user = {k: self.user[k] for k in ("go", "spec")} if self.user else None
        for k, verdict in verdicts:
            c = cmds[k]
            if verdict == "REJECT":
                self.violations.append({"what": what, "module": module, "env": env or {}, "cmd": c,
                                        "record": lines[k], "user": user, "race": race, "denv": denv or {}})
            else:
                self.known_hits.setdefault(verdict, []).append(lines[k])
        for c in cmds[:1]:
            if len(self.samples) < 6:
                self.samples.append(json.loads(cut(c)) if len(json.dumps(c)) < 1500 else json.dumps(c)[:1500])
        for l in lines:
            self.distinct.add(hash(l))
        return lines

    def finish(self, level="model_checking", extra=None, assumptions=()):
        known = load_known()
        mine = {k["id"]: k for k in known.get("findings", []) if k["property"] == self.pid}
        bad = list(self.violations)
        for name, ls in self.known_hits.items():
            if name in mine:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, mine[name]["what"]))
            else:
                bad.append({"what": "deviation %s, which is not listed" % name, "module": "", "env": {}, "cmd": None,
                            "record": ls[0]})
        cov = dict(self.cov)
        cov.update({"states": self.states, "transitions": self.transitions,
                    "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
                    "distinct_nontrivial": len(self.distinct)})
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": tier(), "seed": seed(), "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)}
        evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not bad:
            print("ok property=%s: %d executions judged, %d states, %.1f s" %
                  (self.pid, self.traces, self.states, time.time() - self.t0))
            return 0
        rd = os.path.join(evd, "replay")
        os.makedirs(rd, exist_ok=True)
        for k, v in enumerate(bad[:5]):
            f = os.path.join(rd, "%s-%d.json" % (self.pid, k))
            with open(f, "w") as h:
                json.dump(v, h, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, f))
            print("  " + v["what"])
            print("  " + str(v["record"])[:1500])
        if len(bad) > 5:
            print("  ... and %d more" % (len(bad) - 5))
        return 1


def cut(c):
    return json.dumps(c)


def load_known():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {}


class DriverCrash(Exception):
    def __init__(self, rc, out, cmds):
        super().__init__("driver exit %d: %s" % (rc, out[-3000:]))
        self.rc, self.out, self.cmds = rc, out, cmds


def unquote(line):
    # TLC prints a string value with quotes and backslash escapes
    return json.loads(line)


def tail(out, n=40):
    ls = [l for l in out.splitlines() if not re.match(r"(Semantic|Linting|Parsing|\"CASE)", l)]
    return "\n".join(x[:600] for x in ls[-n:])
