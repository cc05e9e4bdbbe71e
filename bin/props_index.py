"""C07 blocked index iteration (and its refusals, used by C21)."""
import os, random
from vf import *

H = os.path.join(HARN, "index_h.cpp")
RT = os.path.join(VERIF, "rt")
IMPL = {1: "memory_layout", 2: "variants", 3: "looped"}


def build(ctx, k):
    return ctx.build("index%d" % k, [(H, ["-DH_IMPL=%d" % k]), os.path.join(RT, "vrt.cpp"), os.path.join(RT, "hpxshim.cpp")],
                     incs=[RT], link=["-lboost_program_options"])


def schedules(rng, n):
    out = []
    for k in range(n):
        s = ["eager", "random", "fifo", "random", "lifo", "random"][k % 6]
        out.append({"strategy": s, "seed": rng.randrange(1 << 20), "chunk": rng.choice([1, 1, 2, 0]), "back": rng.randrange(2),
                    "yields": rng.randrange(3)})
    return out


def enumerated(rng, masked, thorough):
    """All one-level policies on small two-dimensional ranges, and all one-dimensional ones with two levels."""
    out = []
    masks = [(a, b) for a in (False, True) for b in (False, True)] if masked else [(False, False)]
    for e0 in range(0, 6 if thorough else 5):
        for e1 in range(0, 6 if thorough else 4):
            for b0 in (1, 2, 3, 5):
                for b1 in (1, 2, 4):
                    for m in masks:
                        out.append({"dim": 2, "pdim": 2, "lo": [e1 % 2, 2], "hi": [e0 + e1 % 2, e1 + 2], "steps": [],
                                    "levels": [{"b": [b0, b1], "p": list(m)}]})
    for e in range(0, 8):
        for a in (1, 2, 3, 4, 6):
            for b in (1, 2, 3, 5, 9):
                for m in masks:
                    for st in ([[], [1]] if masked else [[]]):
                        out.append({"dim": 1, "pdim": 1, "lo": [e % 3], "hi": [e + e % 3], "steps": st,
                                    "levels": [{"b": [a], "p": [m[0]]}, {"b": [b], "p": [m[1]]}]})
    return out


def c07(ctx):
    ctx.model_check("MCIndexIter")
    ctx.model_check("MCIndexIter", "MCIndexIter2.cfg")
    if ctx.thorough:
        ctx.model_check("MCIndexIter", "MCIndexIterT.cfg")
    rng = random.Random(ctx.seed)
    for k in (1, 2, 3):
        b = build(ctx, k)
        masked = k != 3
        run = lambda c: ctx.replay(b, c)
        reqs = enumerated(rng, masked, ctx.thorough)
        if not ctx.thorough:
            reqs = rng.sample(reqs, min(len(reqs), 500 if masked else 200))
        sch = schedules(rng, len(reqs))
        ctx.conform("TraceIndexIter", [dict(s, r=r) for r, s in zip(reqs, sch)], run, label=IMPL[k] + ": small requests")
        n = 1500 if ctx.thorough else 200
        g = ctx.generate("GenIndexIter", n, depth=40, env={"VF_PTS": 120, "VF_MASKED": "yes" if masked else "no"})
        cases = []
        for r in g:
            for s in schedules(rng, 2 if masked else 1):
                cases.append(dict(s, r=r))
        ctx.conform("TraceIndexIter", cases, run, label=IMPL[k] + ": generated requests")
        ctx.conform("TraceIndexIter", sequences(rng, cases, 60), run, label=IMPL[k] + ": sequences")
        big = []
        for lo, hi, steps, levels in [
                ([0, 0, 0], [12, 12, 12], [], [([4, 4, 4], [True, True, False]), ([8, 8, 8], [True, False, True])]),
                ([0, 0], [70, 33], [1, 4], [([7, 8], [False, True]), ([32, 16], [True, True])]),
                ([3, 1], [45, 44], [4, 4], [([8, 16], [True, True])]),
                ([0, 0, 0, 0], [5, 6, 7, 4], [], [([2, 4, 3, 3], [True, False, True, False])]),
                ([0, 0, 0, 0, 0], [3, 4, 3, 2, 4], [], [([2, 3, 1, 2, 3], [False, True, True, False, True])]),
                ([100000, 0], [100030, 11], [], [([9, 5], [True, False])])]:
            if not masked:
                steps, levels = [], [(x, [False] * len(lo)) for x, _ in levels]
            r = {"dim": len(lo), "pdim": len(lo), "lo": lo, "hi": hi, "steps": steps,
                 "levels": [{"b": x, "p": m} for x, m in levels]}
            big += [dict(s, r=r) for s in schedules(rng, 6 if ctx.thorough else 2)]
        ctx.conform("TraceIndexIter", big, run, label=IMPL[k] + ": large requests")
        # far from zero, and with large steps and blocks
        cases = []
        for r, s in zip(g, schedules(rng, len(g))):
            if r["dim"] != r["pdim"] or r.get("bad") or len(cases) > 150:
                continue
            d = r["dim"]
            c = dict(s, r=r, orgk=[rng.choice([0, 1, 4, 5, 1 << 12]) for _ in range(d)])
            if masked:
                c["unit"] = [rng.choice([1, 3, 65537, 16777217, 2147483647]) for _ in range(d)]
                if not r["steps"]:
                    c["r"] = dict(r, steps=[1] * d)
            cases.append(c)
        ctx.conform("TraceIndexIter", cases, run, label=IMPL[k] + ": far requests")


def refusals(ctx):
    rng = random.Random(ctx.seed)
    for k in (1, 2, 3):
        b = build(ctx, k)
        g = ctx.generate("GenIndexIter", 1500 if ctx.thorough else 300, depth=40,
                         env={"VF_PTS": 30, "VF_DIMS": 4, "VF_BAD": "yes", "VF_MASKED": "yes" if k != 3 else "no"})
        cases = [dict(s, r=r) for r, s in zip(g, schedules(rng, len(g)))]
        ctx.conform("TraceIndexIter", cases, lambda c: ctx.replay(b, c), label=IMPL[k] + ": inconsistent requests")


TABLE = {"C07": c07}
