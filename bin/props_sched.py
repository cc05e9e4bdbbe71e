"""C11, C12: distribution of work."""
import random
from vf import *
from props_prod import *
from props_var import ALGO, more_sources


def sched_build(ctx):
    srcs = [h("sched_h.cpp")] + ALGO["STATIC"][0]
    link = ["-lboost_program_options"]
    fl = ["-mavx2", "-mfma"]
    try:
        return ctx.build("sched", srcs + rt("vrt.cpp", "hpxshim.cpp"), flags=fl, incs=[RT], link=link)
    except ToolError as e:
        if "link failed" not in str(e):
            raise
        return ctx.build("sched", [h("sched_h.cpp")] + more_sources(True) + rt("vrt.cpp", "hpxshim.cpp"), flags=fl, incs=[RT], link=link)


def sched_cases(ctx, rng, what):
    gen = ctx.generate("GenSchedule", 0, simulate=False, env={"VF_N": 16 if ctx.thorough else 12})
    cases = []
    if not ctx.thorough:
        gen = rng.sample(gen, 1500)
    for g in gen:
        loads = g.pop("loads")
        nodes = [1, 2, 3, 4, 5, 6, 7]
        rng.shuffle(nodes)
        ops = [["sched", k] for k in nodes[:3 if not ctx.thorough else 5]]
        if what == "balance":
            ops += [["fulf", l] for l in rng.sample(loads, 6)]
            # the object stays usable
            ops.append(["sched", nodes[0]])
        cases.append(dict(g, ops=ops))
    return cases


def large_cases(ctx, rng):
    cases = []
    for n in [33, 48, 64, 96, 100, 127, 128, 200, 256, 320, 384, 512, 768, 1000, 1024] + ([2048, 3072, 4096] if ctx.thorough else [2048]):
        for q in range(3 if not ctx.thorough else 10):
            c = {"n": n, "min": rng.choice([1, 2, n // 16, n // 8, n // 4, n // 2, n, 256]), "ad": rng.choice([0, 1, 100, 10000, n * n // 20, n * n]),
                 "rn": rng.choice([0, 1, 1, 3]), "rd": rng.choice([20, 4, 10, 2])}
            if c["min"] < n // 32:
                c["min"] = n // 32
            if q == 0:
                c.update(min=256, ad=10000, rn=1, rd=20)
            if q == 2:
                c["huge"] = 1
                c["ad"] = q
            c["ops"] = [["sched", rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16])] for _ in range(2)]
            cases.append(c)
    return cases


def add_search(recs, top):
    for r in recs:
        for e in r["ev"]:
            if e.get("e") == "sched":
                e["search"] = top
    return recs


def c11(ctx):
    ctx.model_check("MCSchedule")
    if ctx.thorough:
        ctx.model_check("MCSchedule", "MCScheduleT.cfg", timeout=1500)
    rng = random.Random(ctx.seed)
    b = sched_build(ctx)
    env = {"VF_WHAT": "cover"}
    ctx.conform("TraceSchedule", sched_cases(ctx, rng, "cover"), lambda c: ctx.replay(b, c), env=env, label="small parameters")
    ctx.conform("TraceSchedule", sequences(rng, sched_cases(ctx, rng, "cover"), 60), lambda c: ctx.replay(b, c), env=env, label="sequences of objects")
    ctx.conform("TraceSchedule", large_cases(ctx, rng), lambda c: ctx.replay(b, c), env=env, label="large sizes", heap="6g")


def c12(ctx):
    ctx.model_check("MCSchedule")
    if ctx.thorough:
        ctx.model_check("MCSchedule", "MCScheduleT.cfg", timeout=1500)
    rng = random.Random(ctx.seed)
    b = sched_build(ctx)
    env = {"VF_WHAT": "balance"}
    top = 40 if ctx.thorough else 25
    ctx.conform("TraceSchedule", sched_cases(ctx, rng, "balance"), lambda c: add_search(ctx.replay(b, c), top), env=env, label="small parameters")
    ctx.conform("TraceSchedule", large_cases(ctx, rng), lambda c: add_search(ctx.replay(b, c), top), env=env, label="large sizes", heap="6g")
    # loads of matrices far too large to be multiplied here
    cases = []
    for unit, unit2 in [(65536, 1), (1000003, 1), (65536, 32768), (65536, 65536), (1000003, 65537), (1 << 20, 1 << 20), (2147483647, 3)]:
        for q in range(12 if not ctx.thorough else 60):
            ad = rng.choice([0, 1, 2, 5, 100])
            rn, rd = rng.choice([(0, 1), (1, 20), (1, 4), (1, 2), (1, 1), (3, 1), (1, 100)])
            ops = []
            for _ in range(8):
                mn = rng.choice([0, 1, 2, 3, 20, 40, 100, 400])
                l = [mn + rng.choice([0, 0, 1, 2, 5, mn // 20, mn // 4, mn // 2, mn, 3 * mn, 101]) for _ in range(rng.randrange(1, 6))]
                ops.append(["fulf", l])
            cases.append({"n": 2, "min": 1, "ad": ad, "rn": rn, "rd": rd, "unit": unit, "unit2": unit2, "ops": ops})
    ctx.conform("TraceSchedule", cases, lambda c: add_search(ctx.replay(b, c), top), env=env, label="large loads")


TABLE = {"C11": c11, "C12": c12}
