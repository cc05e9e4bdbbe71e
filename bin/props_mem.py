"""C24: accesses stay inside live storage."""
import concurrent.futures as cf
import os, random
from vf import *
from props_prod import *
from props_var import *
import props_layout, props_loops, props_index, props_race

MEMF = ["-fsanitize=thread", "-fno-tree-loop-im", "-fno-tree-pre"]
MEMW = ["-Wl," + ",".join("--wrap=" + f for f in ("memcpy", "memmove", "memset", "malloc", "calloc", "realloc", "free", "aligned_alloc",
                                                "memalign", "posix_memalign"))]
NETF = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1", "-D_GLIBCXX_SANITIZE_VECTOR"]
NET_ENV = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:exitcode=77:abort_on_error=0:redzone=2048:max_redzone=2048:strict_memcmp=0",
           "UBSAN_OPTIONS": "exitcode=77"}


def only_memory(recs):
    """Keep what the memory monitor saw and how the case ended. Blocks do not depend on each other: one after
    the other, and blocks with equal histories once."""
    for r in recs:
        hist = {}
        ev = []
        for e in r["ev"]:
            if e["e"] in ("mnew", "muse", "mfree"):
                hist.setdefault(e["b"], []).append(e)
        seen = set()
        for b in sorted(hist):
            key = tuple((e["e"], e.get("n"), e.get("lo"), e.get("hi")) for e in hist[b])
            if key not in seen:
                seen.add(key)
                ev += hist[b]
        r["blocks"] = len(hist)
        f = r["ev"][-1] if r["ev"] else {"e": "cut"}
        if f["e"] == "fault" and f["what"] in ("signal 11", "signal 7", "exit 77"):
            ev.append(f)
        elif f["e"] == "fault" and f["what"] in ("exit 96", "exit 97"):
            raise ToolError("memory monitor failed: %s" % f["what"])
        else:
            ev.append({"e": "end" if f["e"] == "end" else "cut"})
        r["ev"] = ev
    return recs


def census(ctx, recs):
    ctx.cover["heap_blocks_followed"] = ctx.cover.get("heap_blocks_followed", 0) + sum(r.get("blocks", 0) for r in recs)


def build2(ctx, name, srcs, hpx=False, omp=False, flags=(), more=None, vrt=True):
    """(the monitored build or None, the build with the address sanitizer)"""
    def mem(ss):
        s2 = [(s, MEMF + (["-fopenmp"] if omp else [])) if not isinstance(s, tuple) else (s[0], list(s[1]) + MEMF + (["-fopenmp"] if omp else [])) for s in ss]
        s2 += rt("mem.cpp") + (rt("vrt.cpp") if vrt else []) + (rt("gomp.cpp") if omp else []) + (rt("hpxshim.cpp") if hpx else [])
        return ctx.build(name + "_mem", s2, flags=list(flags), incs=[RT], link=MEMW + (["-lboost_program_options"] if hpx else []))

    def net(ss):
        ex = NETF + (["-fopenmp", "-DREAL_OMP"] if omp else [])
        s2 = [(s, ex) if not isinstance(s, tuple) else (s[0], list(s[1]) + ex) for s in ss]
        s2 += [(s, NETF + ["-DVRT_ASAN"]) for s in (rt("vrt.cpp") if vrt else []) + (rt("hpxshim.cpp") if hpx else [])]
        return ctx.build(name + "_net", s2, flags=list(flags), incs=[RT],
                         link=["-fsanitize=address,undefined"] + (["-lboost_program_options"] if hpx else []) + (["-fopenmp"] if omp else []))

    def go(f):
        try:
            return f(srcs)
        except ToolError as e:
            if "link failed" not in str(e):
                raise
            try:
                if more:
                    return f(more())
            except ToolError:
                pass
            if f is mem and omp:
                return None   # OpenMP constructs the runtime does not have
            raise e
    return go(mem), go(net)


def algo2(ctx, algo):
    srcs, hpx, omp = ALGO[algo]
    fl = ARCH + ["-DH_" + algo] + (["-DH_HPX"] if hpx else [])
    return build2(ctx, algo.lower(), [h("var_h.cpp")] + srcs, hpx, omp, fl, more=lambda: [h("var_h.cpp")] + more_sources(hpx))


def sizes(rng, top, k):
    return sorted(set(rng.sample(range(1, top + 1), min(k, top))))


def variant_cases(ctx, rng):
    T = ctx.thorough
    out = {}
    for algo in ("ALGORITHMS", "LOOPED", "SEMI"):
        cases = []
        for n in range(0, 14 if not T else 21):
            bs = sorted({1, 2, 3, 4, 8, max(n - 1, 1), max(n, 1), n + 1, n + 5})
            for br, bi in rng.sample([(x, y) for x in bs for y in bs], 6 if not T else 20):
                k = len(cases)
                cases.append(dict(operands(rng, n, k), bt=True, br=br, bi=bi, **sched(rng, k)))
        out[algo] = cases
    for algo in ("SINGLE", "PSEUDO"):
        cases = []
        for n in ([1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 16] if not T else list(range(1, 25))):
            for rep in range(5 if not T else 12):
                k = len(cases)
                c = dict(operands(rng, n, k), bt=rep % 2 == 0, br=rng.choice([x for x in (0, 1, 2, 3, 4, n // 2, n, n + 1, 128) if not x or n // x <= 6]),
                         bi=rng.choice([0, 1, 3, 4, n + 1, 128]), reps=1 + rep % 2, localities=1 + rep % 4)
                if algo != "SINGLE":
                    c.update(mws=rng.choice([2, max(n // 3, 1), max(n // 2, 1), 256]), mwd=rng.choice([1, 4, 1000]), rel=rng.choice([0.0, 0.05, 0.5]))
                c.update(sched(rng, k))
                cases.append(c)
        out[algo] = cases
    for algo in ("COMBINED", "KTILED"):
        cases = []
        for n in [0, 1, 3, 4, 5, 17, 35, 64, 70, 129, 141, 257] + ([2, 7, 8, 16, 63, 65, 127, 128, 140, 255, 256, 300, 420, 421] if T else []):
            for bt in ([False, True] if algo == "KTILED" else [False]):
                k = len(cases)
                cases.append(dict(operands(rng, n, k), bt=bt, reps=1 + (n < 20), **sched(rng, k)))
        out[algo] = cases
    out["KTEST"] = [dict(operands(rng, 512, 0), bt=False, reps=1, **sched(rng, 1))]
    return out


def other_cases(ctx, rng):
    T = ctx.thorough
    out = {}
    cases = []
    for n in ([0, 1, 2, 3, 4, 5, 7, 8, 11, 16, 31] if not T else list(range(0, 41))):
        for bt in (False, True):
            for ty in ["double", "float", "int", "long"]:
                k = len(cases)
                cases.append(dict(operands(rng, n, k, ty), bt=bt, reps=1 + k % 2, **sched(rng, k)))
    out["naive"] = cases
    gen = ctx.generate("GenKernel", 0, simulate=False, env={"VF_N": 9})
    kern = []
    for k, g in enumerate(gen):
        if g["form"] != "mult":
            kern.append(dict(g, **operands(rng, g["n"], k // 4, ["double", "float", "int", "long"][k % 4])))
    out["kern"] = rng.sample(kern, min(len(kern), 400 if T else 120))
    out["exp"] = exp_cases(ctx, rng, [0, 1, 2, 4, 8, 12, 16, 20, 24, 31] if not T else list(range(0, 33)), [128, 256])
    for c in out["exp"]:
        c["reps"] = 1
    # layouts: every small one, all operations
    lays = props_layout.all_layouts(ctx, 4, 5, 16 if not T else 36)
    lays += [{"tile": t, "ext": e} for t, e in props_layout.big_layouts()]
    cases = []
    for k, l in enumerate(lays):
        big = "tiles" not in l
        ops = [{"op": "new", "kind": "flat", "tile": l["tile"], "ext": l["ext"], "base": 1}, {"op": "tile", "h": 1}, {"op": "untile", "h": 2}]
        nt = [a // b for a, b in zip(l["ext"], l["tile"])]
        for t in ([[0] * len(nt), [x - 1 for x in nt]] if big else l["tiles"]):
            ops.append({"op": "bind", "h": 2, "t": t})
        for v in range(1, len(ops) - 2):
            for c in ([[0] * len(nt), [x - 1 for x in l["tile"]]] if big else l["inner"]):
                ops.append({"op": "read", "v": v, "c": c, "mode": (v + k) % 3})
            ops.append({"op": "write", "v": v, "c": [x - 1 for x in l["tile"]], "mode": v % 3, "x": 50})
        ops.append({"op": "iter", "h": 2, "k": 1 << 20, "o": 0, "x": 7})
        cases.append({"ty": props_layout.TYPES[k % 5], "ops": ops})
    out["layout"] = rng.sample(cases[:-15], min(len(cases) - 15, 250 if not T else 2000)) + cases[-15:]
    out["layout"] += props_layout.sessions(ctx, "view", 40 if not T else 400, 12, 60)
    out["layout"] += props_layout.sessions(ctx, "untile", 20 if not T else 200, 8)
    # index iteration and loop nests
    for k in (1, 2, 3):
        reqs = props_index.enumerated(rng, k != 3, T)
        reqs = rng.sample(reqs, 120 if not T else 600)
        reqs += ctx.generate("GenIndexIter", 40 if not T else 300, depth=40, env={"VF_PTS": 80, "VF_MASKED": "yes" if k != 3 else "no"})
        out["index%d" % k] = [dict(s, r=r) for r, s in zip(reqs, props_index.schedules(rng, len(reqs)))]
    g = ctx.generate("GenLoops", 60 if not T else 400, depth=40, env={"VF_PTS": 100})
    forms = ["carr", "sarr", "args1", "args2"]
    ops = [dict(c, form=forms[k % 4], ty=["size", "uint", "int", "long", "short"][(k // 4) % 5]) for k, c in enumerate(g)]
    out["loops"] = props_loops.batch(ops, 5)
    exts = [[1], [7], [2, 3], [3, 1, 4], [2, 2, 3, 2], [1, 1, 5, 1, 2], [2, 1, 2, 3, 1, 2]]
    out["flat"] = props_loops.batch([{"op": "flatall", "form": f, "ext": e} for e in exts for f in ("carr", "sarr", "view")], 3)
    cases = []
    types = ["double", "int", "float", "long", "string", "aligned"]
    top = 9 if T else 6
    for r in range(0, top):
        for c in range(0, top):
            ops = [{"op": "load", "rows": r, "cols": c, "seed": r * 31 + c}, {"op": "tr", "k": 1, "rows": r, "cols": c}, {"op": "tr", "k": 2, "rows": c, "cols": r}]
            if r == c:
                ops += [{"op": "trsq", "k": 1, "rows": r, "cols": c}, {"op": "ident", "n": r}, {"op": "enum", "n": r}, {"op": "rand", "n": r}]
            cases.append({"ty": types[(r + c) % 6], "ops": ops})
    cases.append({"ty": "double", "every": 0, "ops": [{"op": "ident", "n": 65}, {"op": "enum", "n": 65}, {"op": "rand", "n": 65}, {"op": "trsq", "k": 2, "rows": 65, "cols": 65}]})
    out["util"] = cases
    return out


def c24(ctx):
    ctx.model_check("MCMemory")
    ctx.model_check("MCPanels")
    if ctx.thorough:
        ctx.model_check("MCMemory", "MCMemoryT.cfg", timeout=1500)
        ctx.model_check("MCPanels", "MCPanelsT.cfg", timeout=1500)
    rng = random.Random(ctx.seed)
    cases = variant_cases(ctx, rng)
    cases.update(other_cases(ctx, rng))
    jobs = {a: (lambda a=a: algo2(ctx, a)) for a in ("COMBINED", "KTILED", "KTEST", "ALGORITHMS", "LOOPED", "SEMI", "SINGLE", "PSEUDO")}
    jobs["naive"] = lambda: build2(ctx, "naive", [h("naive_h.cpp")], omp=True)
    jobs["kern"] = lambda: build2(ctx, "kern", [h("kern_h.cpp")])
    jobs["exp"] = lambda: build2(ctx, "exp", exp_srcs(["-std=c++11", "-mavx2", "-mfma", "-DEXACT"]), omp=True)
    jobs["layout"] = lambda: build2(ctx, "layout", [h("layout_h.cpp")], flags=["-DH_TILE", "-DH_UNTILE", "-DH_VIEW", "-DH_ITER"], vrt=False)
    for k in (1, 2, 3):
        jobs["index%d" % k] = lambda k=k: build2(ctx, "index%d" % k, [(h("index_h.cpp"), ["-DH_IMPL=%d" % k])], hpx=True)
    learn = '-DVF_LEARN="%s"' % os.path.join(REPO, "learning", "MetaProgrammingCPP.cpp")
    jobs["loops"] = lambda: build2(ctx, "loops", [(h("loops_h.cpp"), ["-DH_LOOPS"]), (h("loops_learn.cpp"), [learn])], hpx=True)
    jobs["flat"] = lambda: build2(ctx, "flat", [(h("loops_h.cpp"), ["-DH_FLAT"])], vrt=False)
    jobs["util"] = lambda: build2(ctx, "util", [(h("util_h.cpp"), ["-DH_BUILD"])], vrt=False)
    with cf.ThreadPoolExecutor(4) as ex:
        bins = dict(zip(jobs, ex.map(lambda j: j(), jobs.values())))
    allc = []
    for name, cs in cases.items():
        m, s = bins[name]
        allc += [dict(c, fam=name, how="sanitizer") for c in cs] + ([dict(c, fam=name, how="recorded") for c in cs] if m else [])
        ctx.cover.setdefault("cases_per_part", {})[name.lower()] = len(cs)

    def run(cs):
        out = []
        groups = {}
        for k, c in enumerate(cs):
            groups.setdefault((c["fam"], c["how"]), []).append((k, c))
        for (fam, how), g in groups.items():
            recs = ctx.replay(bins[fam][how == "sanitizer"], [c for _, c in g], limit=200, env=NET_ENV)
            for (k, c), r in zip(g, only_memory(recs)):
                c["id"] = r["id"] = r["cfg"]["id"] = k + 1
                out.append(r)
        return sorted(out, key=lambda r: r["id"])
    recs = ctx.conform("TraceMemory", allc, run, label="all operations", heap="6g")
    census(ctx, recs)
    # the padded reference kernel outside its domain
    m, s = bins["KTEST"]
    items = [("ktest-" + str(n), dict(operands(rng, n, 0), bt=False, reps=1, threads=2)) for n in (1, 100, 256, 600)]
    ctx.known_cases("TraceMemory", items, lambda c: only_memory(ctx.replay(s, c, limit=200, env=NET_ENV)), "kernel_test, findings")


TABLE = {"C24": c24}
