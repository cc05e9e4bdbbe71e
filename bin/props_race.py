"""C23: no two unordered parts of a parallel algorithm conflict."""
import os, random
from vf import *
from props_prod import *
from props_var import *
from props_var import ARCH


def strat(rng, k, n):
    d = {"strategy": ["random", "eager", "fifo", "lifo", "random"][k % 5], "seed": rng.randrange(1 << 20), "chunk": rng.choice([1, 1, 2, 0]),
         "back": rng.randrange(2), "threads": rng.choice([2, 3, 4, 5]), "race": 1}
    if d["strategy"] == "random" and n < 20:
        d["preempt"] = rng.choice([5, 20, 100])
    return d


def only_race(recs):
    """Results are other checks' business: only the events of the race detector, and how the case ended."""
    for r in recs:
        r["ev"] = [e for e in r["ev"] if e["e"] not in ("in", "prod", "ops", "opsame", "plan", "piece", "guards")]
    return recs


def census(ctx, recs):
    s = ctx.cover.setdefault("races", {"stretches": 0, "synchronisations": 0, "most_tasks": 0})
    for r in recs:
        for e in r["ev"]:
            if e["e"] == "seg":
                s["stretches"] += 1
            elif e["e"] in ("rel", "acq"):
                s["synchronisations"] += 1
            elif e["e"] == "tasks":
                s["most_tasks"] = max(s["most_tasks"], e["n"])


def races(ctx, b, cases, label, limit=60):
    recs = ctx.conform("TraceRace", cases, lambda c: only_race(ctx.replay(b, c, limit=limit)), label=label, heap="6g")
    census(ctx, recs)


def c23(ctx):
    ctx.model_check("MCRace")
    if ctx.thorough:
        ctx.model_check("MCRace", "MCRace2.cfg")
        ctx.model_check("MCRace", "MCRaceT.cfg", timeout=3000)
    rng = random.Random(ctx.seed)
    T = ctx.thorough
    # naive products
    m, _ = omp_build(ctx, "naive", [h("naive_h.cpp")])
    if m:
        cases = []
        for n in ([1, 2, 3, 4, 5, 8, 11, 16] if not T else list(range(1, 25))):
            for bt in (False, True):
                for ty in ["double", "float", "int", "long"]:
                    k = len(cases)
                    cases.append(dict(operands(rng, n, k, ty), bt=bt, reps=1, **strat(rng, k, n)))
        races(ctx, m, cases, "naive products")
    for algo in ("ALGORITHMS", "LOOPED", "SEMI"):
        m = var_build(ctx, algo, "mon")
        cases = []
        for n in range(1, 13 if not T else 21):
            bs = sorted({1, 2, 3, 4, max(n - 1, 1), n, n + 1})
            for br, bi in rng.sample([(x, y) for x in bs for y in bs if (n // x) < 7], 4 if not T else 10) if n > 1 else [(1, 1), (2, 1)]:
                k = len(cases)
                cases.append(dict(operands(rng, n, k), bt=True, br=br, bi=bi, **strat(rng, k, n)))
        races(ctx, m, cases, algo.lower())

    # tasks and continuations
    for algo in ("SINGLE", "STATIC", "PSEUDO"):
        m = var_build(ctx, algo, "mon")
        cases = []
        for n in ([1, 2, 3, 4, 5, 6, 8, 9, 12] if not T else list(range(1, 17))):
            for rep in range(5 if not T else 16):
                k = len(cases)
                c = dict(operands(rng, n, k), bt=rep % 2 == 0, br=rng.choice([x for x in (0, 1, 2, 3, 4, n // 2, n, 128) if not x or n // x <= 4]),
                         bi=rng.choice([0, 1, 3, 4, 128]), reps=1 + rep % 2, localities=1 + rep % 4)
                if algo != "SINGLE":
                    c.update(mws=rng.choice([2, max(n // 3, 1), max(n // 2, 1), 256]), mwd=rng.choice([1, 4, 1000]), rel=rng.choice([0.0, 0.05, 0.5]))
                c.update(strat(rng, k, n))
                cases.append(c)
        races(ctx, m, cases, algo.lower())
    # padded variants: several blocks in each direction
    for algo in ("COMBINED", "KTILED"):
        m = mon_or_none(ctx, algo)
        if m:
            cases = []
            for n in [5, 141, 257] + ([300, 421] if T else []):
                for bt in ([False, True] if algo == "KTILED" else [False]):
                    k = len(cases)
                    c = dict(operands(rng, n, k), bt=bt, reps=1 + (n < 20), **strat(rng, k, n))
                    cases.append(c)
            races(ctx, m, cases, algo.lower(), limit=300)
    m = mon_or_none(ctx, "KTEST")
    if m:
        races(ctx, m, [dict(operands(rng, 512, 0), bt=False, reps=1, **strat(rng, 1, 512))], "ktest", limit=300)
    try:
        m = mon_build(ctx, "exp_mon", exp_srcs(["-std=c++11", "-mavx2", "-mfma"]))
    except ToolError as e:
        if "link failed" not in str(e):
            raise
        m = None
    if m:
        cases = exp_cases(ctx, rng, [1, 2, 4, 8, 12, 16] if not T else list(range(1, 25)), [256])
        for k, c in enumerate(cases):
            c.update(strat(rng, k, c["n"]))
            c["reps"] = 1
        races(ctx, m, cases, "stand-alone kernels", limit=300)


TABLE = {"C23": c23}
