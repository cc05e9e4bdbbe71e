"""Shared machinery of the checks: scratch space, compiling harnesses against
/repo, running TLC (model checking, generation, trace validation), evidence."""
import atexit, concurrent.futures as cf, hashlib, json, os, random, re, shutil
import subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
CXX = "g++"


class ToolError(Exception):
    """The check itself could not be carried out: exit status 2."""


class Violation(Exception):
    def __init__(self, what, data=None):
        super().__init__(what)
        self.what = what
        self.data = data


def split(rec):
    """A sequence of cases run in one process: a record for each of them."""
    if "seq" not in rec["cfg"]:
        return [rec]
    out = []
    for e in rec["ev"]:
        if e.get("e") == "sub":
            out.append({"id": rec["id"], "cfg": dict(rec["cfg"]["seq"][e["j"]], seq=rec["cfg"]["seq"]), "ev": []})
        else:
            out[-1]["ev"].append(e)
    return out


def sequences(rng, cases, n, lengths=(2, 3, 4)):
    """n sequences of the cases, each to be run in one process."""
    cases = [c for c in cases if "seq" not in c]
    out = []
    for _ in range(n if cases else 0):
        pick = [dict(c) for c in rng.sample(cases, min(len(cases), rng.choice(lengths)))]
        if rng.random() < 0.3:
            pick.append(dict(pick[0]))
        for c in pick:
            c.pop("id", None)
        out.append({"seq": pick})
    return out


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        atexit.register(self.cleanup)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.models = []
        self.cover = {}
        self.assumptions = []
        self.n = 0
        self.known = []

    def cleanup(self):
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- building -------------------------------------------------------
    def build(self, name, srcs, flags=(), link=(), std="c++14", opt="-O1", incs=(), per_obj=None):
        """Compile and link a harness. srcs: list of paths or (path, [flags])."""
        out = self.path(name)
        jobs = []
        objs = []
        base = ["-std=" + std, "-w"] + opt.split() + ["-I" + os.path.join(REPO, "src"), "-I" + HARN]
        base += ["-I" + i for i in incs]
        for k, s in enumerate(srcs):
            extra = []
            if isinstance(s, tuple):
                s, extra = s
            o = "%s.%d.o" % (out, k)
            objs.append(o)
            jobs.append([CXX] + base + list(flags) + list(extra) + ["-c", s, "-o", o])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for cmd, r in zip(jobs, ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs)):
                if r.returncode:
                    raise ToolError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
        cmd = [CXX] + objs + ["-o", out] + list(link)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise ToolError("link failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
        return out

    # ---- running the implementation -------------------------------------
    def replay(self, binary, cases, limit=20, jobs=None, env=None, args=(), timeout=800):
        """Run cases (dicts) through a harness; returns recorded cases in order."""
        jobs = jobs or NCPU
        for k, c in enumerate(cases):
            c["id"] = k + 1
        jobs = max(1, min(jobs, len(cases)))
        self.n += 1
        parts = [cases[j::jobs] for j in range(jobs)]
        e = dict(os.environ)
        e.update(env or {})

        def one(j):
            ci = self.path("cases_%d_%d.ndjson" % (self.n, j))
            co = self.path("rec_%d_%d.ndjson" % (self.n, j))
            with open(ci, "w") as f:
                for c in parts[j]:
                    f.write(json.dumps(c, separators=(",", ":")) + "\n")
            r = subprocess.run([binary, ci, co, str(limit)] + list(args), capture_output=True, text=True,
                               errors="replace", env=e, timeout=timeout)
            if r.returncode:
                raise ToolError("harness failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
            with open(co, errors="replace") as f:
                recs = [json.loads(l) for l in f]
            os.remove(ci)
            os.remove(co)
            return recs

        with cf.ThreadPoolExecutor(jobs) as ex:
            recs = [r for part in ex.map(one, range(jobs)) for r in part]
        recs.sort(key=lambda r: r["id"])
        if len(recs) != len(cases):
            raise ToolError("harness lost cases: %d of %d" % (len(recs), len(cases)))
        return [x for r in recs for x in split(r)]

    # ---- TLC -------------------------------------------------------------
    def _tlc(self, module, cfg, args, env=None, heap="3g", timeout=800, workers=1):
        self.n += 1
        meta = self.path("meta%d_%d" % (self.n, random.randrange(1 << 30)))
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, min(8, workers)),
               "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + self.dir, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=e, cwd=SPEC, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r

    def _count(self, out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            g, d = (int(x.replace(",", "")) for x in m[-1])
            return g, d
        return 0, 0

    def model_check(self, module, cfg=None, env=None, workers=None, heap="8g", timeout=800, args=()):
        """Exhaustive TLC run on the specification. Any error is a ToolError."""
        cfg = cfg or module + ".cfg"
        r = self._tlc(module, cfg, list(args), env=env, heap=heap, workers=workers or NCPU, timeout=timeout)
        g, d = self._count(r.stdout)
        if r.returncode != 0 or "No error has been found" not in r.stdout:
            raise ToolError("specification check failed: %s\n%s" % (module, r.stdout[-3000:] + r.stderr[-1000:]))
        self.states += d
        self.transitions += g
        self.models.append({"module": module, "cfg": cfg, "env": env or {}, "states": d, "transitions": g})
        self.log("model %s/%s: %d distinct states, %d transitions, no error" % (module, cfg, d, g))

    def generate(self, module, num, depth=200, cfg=None, env=None, seed=None, simulate=True, timeout=600):
        """Behaviours of a generator specification as JSON values."""
        cfg = cfg or module + ".cfg"
        args = ["-seed", str(self.seed if seed is None else seed)]
        if simulate:
            args += ["-simulate", "num=%d" % num, "-depth", str(depth)]
        r = self._tlc(module, cfg, args, env=env, timeout=timeout)
        out = []
        for line in r.stdout.splitlines():
            if line.startswith('"CASE '):
                out.append(json.loads(json.loads(line)[5:]))
        if "Error:" in r.stdout or not out:
            raise ToolError("generator %s failed\n%s" % (module, r.stdout[-3000:] + r.stderr[-1000:]))
        self.log("generated %d behaviours from %s %s" % (len(out), module, env or ""))
        return out

    def validate(self, module, recs, cfg="trace.cfg", jobs=None, heap="3g", env=None, count=True, timeout=800):
        """TLC decides each recorded case. Returns list of (rec, reached) rejected."""
        if not recs:
            return []
        jobs = max(1, min(jobs or NCPU, (len(recs) + 3) // 4))
        # balance by size
        order = sorted(range(len(recs)), key=lambda k: -len(json.dumps(recs[k])))
        parts = [[] for _ in range(jobs)]
        for q, k in enumerate(order):
            parts[q % jobs].append(k)
        self.n += 1
        tag = self.n

        def one(j):
            ti = self.path("trace_%d_%d.ndjson" % (tag, j))
            to = self.path("verdict_%d_%d.json" % (tag, j))
            with open(ti, "w") as f:
                for k in parts[j]:
                    f.write(json.dumps(recs[k], separators=(",", ":")) + "\n")
            e = {"VF_TRACE": ti, "VF_OUT": to}
            e.update(env or {})
            r = self._tlc(module, cfg, [], env=e, heap=heap, timeout=timeout)
            if not os.path.exists(to) or "Error:" in r.stdout:
                raise ToolError("trace validation failed to run: %s\n%s" % (module, r.stdout[:1500] + r.stdout[-2000:] + r.stderr[-500:]))
            with open(to) as f:
                v = json.load(f)
            os.remove(ti)
            return v, self._count(r.stdout)

        rej = []
        with cf.ThreadPoolExecutor(jobs) as ex:
            for j, (v, (g, d)) in enumerate(ex.map(one, range(jobs))):
                self.states += d
                self.transitions += g
                if v["n"] != len(parts[j]):
                    raise ToolError("trace validation lost cases")
                for q, k in enumerate(parts[j]):
                    need, got = v["needed"][q], v["reached"][q]
                    if got < need or need == 0:
                        rej.append((recs[k], got))
        if count:
            self.validated += len(recs) - len(rej)
        return rej

    def conform(self, module, cases, runner, limit=20, jobs=None, vjobs=None, heap="3g", label=None,
                env=None, timeout=800, confirm=True):
        """Replay + validate; a rejection is repeated before it is reported."""
        recs = runner(cases)
        if recs and len(self.samples) < 6:
            for r in recs[:1] + recs[len(recs) // 2:len(recs) // 2 + 1]:
                self.samples.append({"kind": label or module, "case": shorten(r["cfg"]),
                                     "events": shorten(r["ev"])})
        rej = self.validate(module, recs, jobs=vjobs, heap=heap, env=env, timeout=timeout)
        self.cover.setdefault("cases", {})[label or module] = len(recs)
        self.log("%s: %d traces checked against %s, %d rejected" % (label or "", len(recs), module, len(rej)))
        if rej:
            rej.sort(key=lambda t: t[0]["id"])
            pick = [dict(r["cfg"]) for r, _ in rej[:8]]
            if confirm:
                recs2 = runner(pick)
                rej2 = self.validate(module, recs2, heap=heap, env=env, count=False, timeout=timeout)
                if rej2:
                    rej2.sort(key=lambda t: t[0]["id"])
                    rec, got = rej2[0]
                else:
                    # it depends on something the case does not fix (addresses,
                    # uninitialised memory): what was recorded still happened,
                    # unless the sandbox was too slow
                    slow = lambda r: any(e.get("e") == "fault" and e.get("what") == "time limit" for e in r["ev"])
                    real = [t for t in rej if not slow(t[0])]
                    if not real:
                        raise ToolError("%s: %d rejections (time limit) did not repeat" % (module, len(rej)))
                    rec, got = real[0]
            else:
                rec, got = rej[0]
            ev = rec["ev"][got] if got < len(rec["ev"]) else None
            raise Violation("%s: case %s: event %d not allowed by %s: %s" % (
                label or module, json.dumps(shorten(rec["cfg"]))[:600], got + 1, module, json.dumps(shorten(ev))[:600]),
                {"module": module, "label": label, "case": rec["cfg"], "explained_events": got,
                 "first_unexplained_event": ev, "record": rec, "rejected": len(rej), "of": len(recs)})
        return recs

    def listed(self):
        """Known findings of this property: key -> text (KNOWN_FINDINGS.md)."""
        r = {}
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.md")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.prop:
                    r[m.group(2)] = m.group(3).strip()
        return r

    def known_cases(self, module, items, runner, label, **kw):
        """Inputs [(key, case)] that fail as listed in the known findings; a
        failing one that is not listed is a violation."""
        listed = self.listed()
        plain = [c for k, c in items if k not in listed]
        if plain:
            self.conform(module, plain, runner, label=label, **kw)
        items = [(k, c) for k, c in items if k in listed]
        if not items:
            return
        recs = runner([c for _, c in items])
        bad = {r["id"] for r, _ in self.validate(module, recs, count=False, **kw)}
        for n, (k, c) in enumerate(items):
            if n + 1 in bad:
                self.known.append(k)
                print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, listed[k], k), flush=True)
        self.cover.setdefault("known_findings", {})[label] = sorted(self.known)

    # ---- results ----------------------------------------------------------
    def evidence(self, violations=0):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "samples": self.samples[:6] or ["no trace recorded"],
               "models": self.models}
        cov.update(self.cover)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def violation(self, v):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = json.dumps({"property": self.prop, "what": v.what, "data": v.data, "seed": self.seed,
                           "tier": self.tier}, indent=1)
        p = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(v.what.encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            f.write(body)
        self.evidence(1)
        print(v.what[:3000])
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)


def shorten(x, n=40):
    if isinstance(x, list):
        if len(x) > n:
            return [shorten(y, n) for y in x[:n]] + ["... %d more" % (len(x) - n)]
        return [shorten(y, n) for y in x]
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, str) and len(x) > 400:
        return x[:400] + "..."
    return x


def main(table):
    if len(sys.argv) != 2 or sys.argv[1] not in table:
        print("usage: check.py PROPERTY", file=sys.stderr)
        return 2
    prop = sys.argv[1]
    ctx = Ctx(prop)
    try:
        table[prop](ctx)
    except Violation as v:
        ctx.violation(v)
        return 1
    except ToolError as e:
        print("CHECK ERROR %s: %s" % (prop, e), flush=True)
        return 2
    ctx.evidence(0)
    ctx.log("property held on everything explored; %d states, %d traces" % (ctx.states, ctx.validated))
    return 0
