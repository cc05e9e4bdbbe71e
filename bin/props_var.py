"""Multiplication variants: C10 single node, C13 distributed, C14 loop based, C15 padded SIMD, C16 repetitions."""
import os, random
from vf import *
from props_prod import *

VS = os.path.join(REPO, "src", "variants")
RS = os.path.join(REPO, "src", "reference_kernels")
COMP = [os.path.join(VS, "components", f) for f in ("multiplier.cpp", "recursive.cpp")]
# algorithm: (its sources, on HPX, uses OpenMP itself)
ALGO = {
    "ALGORITHMS": ([], True, False),
    "LOOPED": ([], True, False),
    "SEMI": ([os.path.join(VS, "semi.cpp")], True, False),
    "COMBINED": ([os.path.join(VS, "combined.cpp")], True, False),
    "KTILED": ([os.path.join(RS, "kernel_tiled.cpp")], False, True),
    "KTEST": ([os.path.join(RS, "kernel_test.cpp")], False, True),
    "SINGLE": ([os.path.join(VS, "single.cpp")] + COMP, True, False),
    "PSEUDO": ([os.path.join(VS, "pseudodynamic.cpp"), os.path.join(VS, "static_improved.cpp")] + COMP, True, False),
    "STATIC": ([os.path.join(VS, "static_improved.cpp")] + COMP, True, False),
}
ARCH = ["-mavx2", "-mfma"]
RELEASE = ["-O3", "-ffast-math"]


def more_sources(hpx):
    """Everything a new or moved function could be in."""
    r = []
    for d in (VS, os.path.join(VS, "components"), RS, os.path.join(REPO, "src", "util"), os.path.join(REPO, "src", "memory_layout")):
        r += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    return r


def var_build(ctx, algo, kind):
    """kind: mon (monitored, preemptible), opt (as released), asan."""
    srcs, hpx, omp = ALGO[algo]
    fl = ARCH + ["-DH_" + algo] + (["-DH_HPX"] if hpx else [])
    nm = algo.lower() + "_" + kind

    def go(ss):
        ss = [h("var_h.cpp")] + ss
        if kind == "mon":
            return mon_build(ctx, nm, ss, hpx=hpx, omp=omp, flags=fl)
        ex = {"opt": RELEASE, "asan": ASAN, "plain": []}[kind]
        link = ["-lboost_program_options"] if hpx else []
        if omp:
            ex = ex + ["-fopenmp", "-DREAL_OMP"]
            link += ["-fopenmp"]
        ss = [(s, ex) for s in ss] + rt("vrt.cpp") + (rt("hpxshim.cpp") if hpx else [])
        return ctx.build(nm, ss, flags=fl, incs=[RT], link=link + (ASAN if kind == "asan" else []))
    try:
        return go(srcs)
    except ToolError as e:
        if "link failed" not in str(e):
            raise
        try:
            return go([s for s in more_sources(hpx)])
        except ToolError:
            raise e


def mon_or_none(ctx, algo):
    """The monitored build; None if it uses OpenMP constructs the runtime does not have."""
    try:
        return var_build(ctx, algo, "mon")
    except ToolError as e:
        if "link failed" not in str(e) or not ALGO[algo][2]:
            raise
        ctx.log("OpenMP constructs beyond the deterministic runtime: system threads only")
        return None


def preempts(rng, c, dense):
    if c["strategy"] == "random":
        c["preempt"] = rng.choice(dense)
    return c


def c14(ctx):
    ctx.model_check("MCPanels")
    if ctx.thorough:
        ctx.model_check("MCPanels", "MCPanelsT.cfg", timeout=1500)
    rng = random.Random(ctx.seed)
    top = 18 if ctx.thorough else 11
    for algo in ("ALGORITHMS", "LOOPED", "SEMI"):
        m = var_build(ctx, algo, "mon")
        o = var_build(ctx, algo, "opt")
        cases, opts = [], []
        for n in range(0, top):
            bs = sorted({1, 2, 3, 4, 5, 8, max(n - 1, 1), max(n, 1), n + 1, n + 4})
            pairs = [(x, y) for x in bs for y in bs]
            if n > 4 and not ctx.thorough:
                pairs = rng.sample(pairs, 12 if n < 9 else 8) + [(n, n), (n + 1, 1), (1, n + 1)]
            for br, bi in pairs:
                k = len(cases)
                c = dict(operands(rng, n, k), bt=True, br=br, bi=bi)
                c.update(sched(rng, k))
                cases.append(preempts(rng, c, [1, 3, 10, 50]))
        for n in list(range(11, 41, 4 if not ctx.thorough else 1)) + [32, 48, 64] + ([96, 100, 128, 129] if ctx.thorough else [100]):
            for br, bi in [(4, 4), (8, 16), (7, 5), (n, n), (16, 8), (n // 2, n // 2 + 1), (128, 128), (n - 1, 3), (3, n - 1)]:
                if n > 50 and br < 4:
                    continue
                k = len(opts)
                c = dict(operands(rng, n, k), bt=True, br=br, bi=bi)
                c.update(sched(rng, k))
                opts.append(c)
        if not ctx.thorough:
            opts = rng.sample(opts, 60)
        for n, br, bi in [(128, 128, 128), (129, 128, 128), (200, 128, 64), (256, 128, 128), (257, 64, 256)] + \
                ([(256, 256, 256), (300, 128, 128), (320, 33, 100), (400, 128, 128), (512, 128, 128)] if ctx.thorough else []):
            c = dict(operands(rng, n, len(opts)), bt=True, br=br, bi=bi)
            c.update(sched(rng, len(opts)))
            opts.append(c)
        for n, br, bi in [(512, 128, 128), (500, 100, 128), (513, 512, 256), (384, 128, 384)] + \
                ([(640, 128, 128), (768, 256, 64), (1024, 128, 128), (1025, 256, 256)] if ctx.thorough else []):
            c = dict(residues(rng, n, len(opts)), bt=True, br=br, bi=bi)
            c.update(sched(rng, len(opts)))
            opts.append(c)
        ctx.conform("TraceProduct", cases, lambda c: ctx.replay(m, c), label=algo.lower() + ", small, interleaved")
        ctx.conform("TraceProduct", opts, lambda c: ctx.replay(o, c, limit=60), label=algo.lower() + ", as released", heap="6g")
        ctx.conform("TraceProduct", sequences(rng, [c for c in cases if c["n"] < 9], 40), lambda c: ctx.replay(o, c), label=algo.lower() + ", sequences")




def c15(ctx):
    ctx.model_check("MCPanels")
    if ctx.thorough:
        ctx.model_check("MCPanels", "MCPanelsT.cfg", timeout=1500)
    rng = random.Random(ctx.seed)
    edges = [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 34, 35, 36, 40, 63, 64, 65, 69, 70, 71, 127, 128, 129, 139, 140, 141]
    for algo in ("COMBINED", "KTILED"):
        o = var_build(ctx, algo, "opt")
        p = var_build(ctx, algo, "plain")
        m = mon_or_none(ctx, algo)

        def mk(ns, reps=1, pre=None):
            r = []
            for n in ns:
                for bt in ([False, True] if algo == "KTILED" else [False]):
                    k = len(r)
                    c = dict((residues if n > 200 else operands)(rng, n, k), bt=bt, reps=reps, verbose=rng.choice([0, 0, 1, 2]))
                    c.update(sched(rng, k))
                    if pre and c["strategy"] == "random":
                        c["preempt"] = pre
                    r.append(c)
            return r
        small = [0] + (list(range(1, 42)) if ctx.thorough else edges[:20]) + edges[20:]
        ctx.conform("TraceProduct", mk(small), lambda c: ctx.replay(o, c, limit=60), label=algo.lower() + ", one block", heap="6g")
        ctx.conform("TraceProduct", sequences(rng, mk(small[:12], 2) + mk(small[:12], 1), 25), lambda c: ctx.replay(o, c, limit=60), label=algo.lower() + ", sequences", heap="6g")
        big = [255, 256, 257, 280, 419, 420, 421, 511, 512, 513, 600, 768, 841, 1030, 1261] + \
            ([300, 384, 640, 769, 839, 840, 1023, 1024, 1025, 1260, 1281, 1536, 1681, 1700, 2050] if ctx.thorough else [])
        ctx.conform("TraceProduct", mk(big), lambda c: ctx.replay(o, c, limit=60), label=algo.lower() + ", several blocks", heap="6g")
        ctx.conform("TraceProduct", mk([3, 36, 129, 257] if not ctx.thorough else edges[::3] + [257, 300, 421]), lambda c: ctx.replay(p, c, limit=60), label=algo.lower() + ", without unsafe optimisation", heap="6g")
        if m:
            ctx.conform("TraceProduct", mk([5, 257, 421] if not ctx.thorough else [5, 70, 257, 300, 421, 513], pre=100000), lambda c: ctx.replay(m, c, limit=200), label=algo.lower() + ", interleaved", heap="6g")
    # the padded reference kernel, in its domain: see KNOWN_FINDINGS.md for the rest
    o = var_build(ctx, "KTEST", "opt")
    cases = []
    for k, n in enumerate([512] if not ctx.thorough else [512, 1024, 512, 512]):
        c = dict(operands(rng, n, k), bt=False, reps=1)
        c.update(sched(rng, k))
        cases.append(c)
    ctx.conform("TraceProduct", cases, lambda c: ctx.replay(o, c, limit=100), label="kernel_test, whole blocks", heap="6g")
    items = []
    for key, n, bt in [("ktest-transposed-512", 512, True), ("ktest-1", 1, False), ("ktest-100", 100, False),
                       ("ktest-256", 256, False), ("ktest-600", 600, False)]:
        items.append((key, dict(operands(rng, n, 0), bt=bt, reps=1, threads=2)))
    a = var_build(ctx, "KTEST", "asan")
    ctx.known_cases("TraceProduct", items, lambda c: ctx.replay(a, c, limit=100, env=ASAN_ENV), "kernel_test, findings", heap="6g")
    m = mon_or_none(ctx, "KTEST")
    if m:
        ctx.conform("TraceProduct", mk_ktest(rng), lambda c: ctx.replay(m, c, limit=300), label="kernel_test, interleaved", heap="6g")


def mk_ktest(rng):
    c = dict(operands(rng, 512, 0), bt=False, reps=1)
    c.update(sched(rng, 0))
    c["preempt"] = 200000
    return [c]


def c16(ctx):
    ctx.model_check("MCReuse")
    if ctx.thorough:
        ctx.model_check("MCPanels")
        ctx.model_check("MCReuse", "MCReuseT.cfg")
    rng = random.Random(ctx.seed)
    two = ctx.generate("GenReuse", 0, simulate=False, env={"VF_OPS": 5, "VF_MATS": 2})
    one = ctx.generate("GenReuse", 0, simulate=False, env={"VF_OPS": 6 if ctx.thorough else 5, "VF_MATS": 1})
    for algo in ("ALGORITHMS", "LOOPED", "SEMI", "SINGLE", "PSEUDO", "STATIC", "COMBINED", "KTILED", "KTEST"):
        # components are found by name: the first object's operands stay (see DESIGN.md)
        hs = list(one if algo in ("SINGLE", "PSEUDO", "STATIC", "KTEST") else two)
        heavy = algo in ("COMBINED", "KTILED", "KTEST")
        num = {"KTEST": 3, "COMBINED": 40, "KTILED": 40}.get(algo, 120) * (6 if ctx.thorough and algo != "KTEST" else 1)
        hs = rng.sample(hs, min(num, len(hs)))
        b = var_build(ctx, algo, "opt")
        cases = []
        for k, g in enumerate(hs):
            if algo == "KTEST":
                ns = [512]
            elif heavy:
                ns = rng.sample([1, 2, 5, 16, 23, 36], 2)
            else:
                ns = rng.sample(range(1, 13), 2)
            if k % 3 == 0:
                ns = [ns[0]] * len(ns)
            c = dict(g, verbose=[0, 0, 1, 2][k % 4], br=rng.choice([1, 2, 3, 4, 8]), bi=rng.choice([1, 2, 3, 4, 8]), mats=[])
            if algo == "SINGLE":
                c["br"], c["bi"] = rng.choice([0, 1, 2, 4, 100]), rng.choice([0, 1, 3, 8])
            if algo in ("PSEUDO", "STATIC"):
                c.update(br=rng.choice([1, 2, 4]), mws=rng.choice([1, 2]), mwd=rng.choice([1, 4]), rel=0.0, localities=rng.choice([1, 2, 3, 5]))
            for q, n in enumerate(ns):
                bt = algo in ("ALGORITHMS", "LOOPED", "SEMI") or algo not in ("COMBINED", "KTEST") and rng.random() < 0.5
                c["mats"].append(dict(operands(rng, n, k + q), bt=bt))
            c.update(sched(rng, k))
            cases.append(c)
        ctx.conform("TraceReuse", cases, lambda c: ctx.replay(b, c, limit=60), label=algo.lower() + ", histories", heap="6g")


def schedules(ctx, recs):
    n = sum(e["n"] for r in recs for e in r["ev"] if e.get("e") == "schedules")
    a = sum(1 for r in recs for e in r["ev"] if e.get("e") == "schedules" and e["all"])
    ctx.cover["schedules"] = ctx.cover.get("schedules", 0) + n
    ctx.cover["cases_with_all_schedules"] = ctx.cover.get("cases_with_all_schedules", 0) + a
    ctx.log("%d schedules run, %d cases with all their schedules" % (n, a))


def c10(ctx):
    ctx.model_check("MCRecursive")
    if ctx.thorough:
        ctx.model_check("MCRecursive", "MCRecursiveT.cfg", timeout=1500)
    rng = random.Random(ctx.seed)
    m = var_build(ctx, "SINGLE", "mon")
    o = var_build(ctx, "SINGLE", "opt")
    cases = []
    for n in range(1, 13 if ctx.thorough else 9):
        for br in sorted({0, 1, 2, 3, 4, n // 2, n, n + 1, 128}):
            for bi in ([0, 1, 3, 4, 128] if ctx.thorough else rng.sample([0, 1, 3, 4, 128], 2)):
                for bt in (False, True):
                    k = len(cases)
                    c = dict(operands(rng, n, k), bt=bt, br=br, bi=bi, reps=[1, 2, 1, 4, 2, 1, 5][k % 7], verbose=[0, 1, 0, 2, 0, 3, 0][k % 7], localities=1 + k % 2)
                    c.update(sched(rng, k))
                    cases.append(preempts(rng, c, [1, 3, 10, 50]))
    ctx.conform("TraceProduct", cases, lambda c: ctx.replay(m, c), label="small, interleaved anywhere")
    small = cases
    cases = []
    for n, br in [(1, 1), (2, 2), (2, 1), (3, 1), (4, 2), (6, 3), (6, 1), (4, 1), (8, 2), (8, 1), (12, 3), (10, 0), (16, 2), (16, 4), (32, 8), (40, 5)]:
        for dfs in (1, 0):
            for rep in range(4 if ctx.thorough else 2):
                k = len(cases)
                c = dict(operands(rng, n, k), bt=k % 3 > 0, br=br, bi=rng.choice([0, 1, 4]), reps=1 + k % 2, dfs=dfs, seed=rng.randrange(1 << 20))
                c["explore"] = (20000 if ctx.thorough else 3000) if n < 7 else (3000 if ctx.thorough else 300) if n < 20 else 40
                cases.append(c)
    recs = ctx.conform("TraceProduct", cases, lambda c: ctx.replay(o, c, limit=120), label="many schedules")
    schedules(ctx, recs)
    ctx.conform("TraceProduct", sequences(rng, small, 60), lambda c: ctx.replay(o, c), label="sequences of objects")
    cases = []
    for n in [11, 20, 24, 36, 40, 48, 64, 100] + ([128, 130, 192, 256, 257, 384, 512] if ctx.thorough else [128, 256, 257]):
        for br in [0, 4, 10, 16, 25, 32, 64, 128]:
            k = len(cases)
            if (n // max(br, 1)) > 16:
                continue
            c = dict(operands(rng, n, k), bt=k % 2 == 0, br=br, bi=rng.choice([0, 8, 7, 128]), reps=1, localities=1 + k % 3)
            c.update(sched(rng, k))
            cases.append(c)
    for n, br in [(300, 128), (384, 128), (512, 128), (512, 64), (600, 0), (768, 256)] + ([(640, 100), (1000, 128), (1024, 128), (1025, 256)] if ctx.thorough else []):
        k = len(cases)
        c = dict(residues(rng, n, k), bt=k % 2 == 0, br=br, bi=rng.choice([0, 64, 100, 128]), reps=1, localities=1 + k % 3, verbose=k % 3)
        c.update(sched(rng, k))
        cases.append(c)
    ctx.conform("TraceProduct", cases, lambda c: ctx.replay(o, c, limit=60), label="larger", heap="6g")


def c13(ctx):
    ctx.model_check("MCRecursive", "MCRecursiveD.cfg")
    if ctx.thorough:
        ctx.model_check("MCRecursive")
        ctx.model_check("MCRecursive", "MCRecursiveT.cfg", timeout=1500)
    rng = random.Random(ctx.seed)
    rel = [0.0, 0.05, 0.3, 1.0]

    def params(n, k):
        return dict(bt=k % 2 == 0, br=rng.choice([0, 1, 2, 3, 4, n // 2, n, 128]), bi=rng.choice([0, 1, 3, 4, 128]), reps=[1, 2, 1, 4, 1, 5, 3][k % 7], verbose=[0, 1, 0, 2, 3][k % 5],
                    mws=rng.choice([1, 1, 2, 4, n // 2, 256]), mwd=rng.choice([0, 1, 2, 10, n * n // 3]), rel=rng.choice(rel),
                    localities=12 + k % 5 if k % 9 == 8 else 1 + k % 7, place=1)
    m = var_build(ctx, "STATIC", "mon")
    o = var_build(ctx, "STATIC", "opt")
    cases = []
    for n in range(1, 13):
        for rep in range(24 if ctx.thorough else 14):
            k = len(cases)
            c = dict(operands(rng, n, k), **params(n, k))
            if n > 8:
                c["br"] = rng.choice([0, 3, 4, 5])
                c["mws"] = max(c["mws"], 2)
            c.update(sched(rng, k))
            cases.append(preempts(rng, c, [1, 3, 10, 50]))
    ctx.conform("TraceDist", cases, lambda c: ctx.replay(m, c), label="small, interleaved anywhere")
    ctx.conform("TraceDist", sequences(rng, cases, 40), lambda c: ctx.replay(o, c), label="sequences of objects")
    cases = []
    for n in [1, 2, 3, 4, 5, 6, 8, 12, 16, 20, 32]:
        for rep in range(8 if ctx.thorough else 4):
            k = len(cases)
            c = dict(operands(rng, n, k), **params(n, k))
            if n > 8:
                c["br"] = rng.choice([0, 4, 5, 8])
                c["mws"] = max(c["mws"], 4)
            c.update(dfs=rep % 4 == 0 and 1 or 0, seed=rng.randrange(1 << 20), place=0)
            c["explore"] = (5000 if ctx.thorough else 1000) if n < 7 else 300
            cases.append(c)
    recs = ctx.conform("TraceDist", cases, lambda c: ctx.replay(o, c, limit=120), label="many schedules")
    schedules(ctx, recs)
    p = var_build(ctx, "PSEUDO", "opt")
    cases = []
    for n in [7, 16, 20, 24, 40, 48, 64, 100] + ([128, 192, 256, 257, 512] if ctx.thorough else [128, 256]):
        for rep in range(3):
            k = len(cases)
            c = dict(operands(rng, n, k), **params(n, k))
            c.update(br=rng.choice([0, 8, 10, 16, 64]), mws=rng.choice([4, 8, n // 4, n // 2]) + 1, place=0)
            c.update(sched(rng, k))
            cases.append(c)
    for n, br, mws in [(300, 64, 64), (512, 128, 128), (512, 64, 100), (600, 0, 256)] + ([(640, 100, 64), (1024, 128, 256), (1025, 256, 200)] if ctx.thorough else []):
        k = len(cases)
        c = dict(residues(rng, n, k), **params(n, k))
        c.update(br=br, bi=rng.choice([0, 64, 100, 128]), mws=mws, place=0, reps=1)
        c.update(sched(rng, k))
        cases.append(c)
    ctx.conform("TraceDist", cases, lambda c: ctx.replay(p, c, limit=60), label="larger, whole variant", heap="6g")


TABLE = {"C10": c10, "C13": c13, "C14": c14, "C15": c15, "C16": c16}
