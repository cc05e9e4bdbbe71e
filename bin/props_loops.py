"""C05 loop nests, C06 flat indices."""
import os, random
from vf import *

H = os.path.join(HARN, "loops_h.cpp")
RT = os.path.join(VERIF, "rt")
UNS, SIG = ["size", "uint"], ["int", "long", "short"]


def batch(ops, n):
    return [{"ops": ops[k:k + n]} for k in range(0, len(ops), n)]


def run(ctx, b, ops, label, n=8):
    ctx.conform("TraceLoops", batch(ops, n), lambda c: ctx.replay(b, c), label=label)


def c05(ctx):
    ctx.model_check("MCLoops")
    if ctx.thorough:
        ctx.model_check("MCLoops", "MCLoopsT.cfg")
    learn = '-DVF_LEARN="%s"' % os.path.join(REPO, "learning", "MetaProgrammingCPP.cpp")
    rt = [os.path.join(RT, "vrt.cpp"), os.path.join(RT, "hpxshim.cpp")]
    b = ctx.build("loops", [(H, ["-DH_LOOPS"]), (os.path.join(HARN, "loops_learn.cpp"), [learn])] + rt, incs=[RT],
                  link=["-lboost_program_options"])
    forms = ["carr", "sarr", "args1", "args2"]
    # every nest of one and two dimensions over small bounds
    ops = []
    dims = [(l, h, s) for l in (0, 1, 3) for h in (0, 1, 2, 4, 7) for s in (1, 2, 3, 5)]
    k = 0
    for q in dims:
        for f in forms:
            for t in UNS + SIG:
                ops.append({"form": f, "ty": t, "lo": [q[0]], "hi": [q[1]], "st": [q[2]]})
    for q in dims[::1 if ctx.thorough else 2]:
        for r in dims[::1 if ctx.thorough else 3]:
            for f in (forms if ctx.thorough else [forms[k % 4]]):
                ops.append({"form": f, "ty": (UNS + SIG)[k % 5], "lo": [q[0], r[0]], "hi": [q[1], r[1]],
                            "st": [q[2], r[2]]})
            k += 1
    run(ctx, b, ops, "one and two dimensions", 20)
    n = 1500 if ctx.thorough else 250
    g = ctx.generate("GenLoops", n, depth=40, env={"VF_PTS": 400})
    g2 = ctx.generate("GenLoops", n, depth=40, env={"VF_PTS": 400, "VF_SIGNED": "yes"})
    ops = []
    for k, c in enumerate(g):
        ops.append(dict(c, form=forms[k % 4], ty=(UNS + SIG)[(k // 4) % 5]))
        ops.append(dict(c, form=forms[(k + 1) % 4], ty=(UNS + SIG)[(k // 4 + 2) % 5]))
    for k, c in enumerate(g2):
        ops.append(dict(c, form=forms[k % 4], ty=SIG[(k // 4) % 3]))
    run(ctx, b, ops, "generated nests of up to six dimensions", 10)
    ops = []
    for dim in range(1, 7):
        for lo, hi in [(0, 0), (0, 1), (0, 2), (0, 3), (1, 3), (2, 2), (3, 1), (4, 5), (-2, 1), (-3, -1), (-1, -1), (0, 10)]:
            if (max(hi - lo, 0)) ** dim > 1100:
                continue
            for t in (SIG if lo < 0 else UNS + SIG):
                ops.append({"form": "learn", "ty": t, "lo": [lo] * dim, "hi": [hi] * dim, "st": [1] * dim})
    run(ctx, b, ops, "learning example", 10)
    big = [([0, 0], [300, 70], [1, 1]), ([0], [9000], [1]), ([5, 0, 0], [70000, 3, 2], [9999, 1, 1]),
           ([0, 0], [2, 66000], [1, 500]), ([0, 60000], [40, 66000], [7, 100]), ([0, 0, 0], [420, 256, 256], [35, 16, 64]),
           ([1000000, 0], [1000010, 300], [3, 13]), ([0, 0, 0, 0], [8, 9, 7, 8], [1, 2, 1, 3]),
           ([0] * 6, [3, 2, 4, 3, 2, 3], [1] * 6)]
    ops = [{"form": f, "ty": t, "lo": l, "hi": h, "st": s} for l, h, s in big for f in forms for t in ("size", "long", "int")]
    run(ctx, b, ops, "large nests", 1)
    # far away from zero and in large units
    rng = random.Random(ctx.seed)
    ops = []
    for k, c in enumerate(rng.sample(g, min(len(g), 200))):
        dim = len(c["lo"])
        for t in UNS + SIG[:2]:
            wide = t in ("size", "long")
            o = dict(c, form=forms[k % 4], ty=t)
            o["orgk"] = [rng.choice([0, 2, 4, 5, 9, 1 << 20] if wide else [0, 2, 3] if t == "uint" else [0, 1]) for _ in range(dim)]
            o["unit"] = [rng.choice([1, 7, 65536, 65537, 100000007, 2147483647] if wide else [1, 257, 65536, 1000003]) for _ in range(dim)]
            ops.append(o)
    for k, c in enumerate(rng.sample(g2, min(len(g2), 60))):
        dim = len(c["lo"])
        ops.append(dict(c, form=forms[k % 4], ty="long", orgk=[rng.choice([0, -2, -5, 4, -(1 << 20)]) for _ in range(dim)],
                        unit=[rng.choice([1, 65537, 2147483647]) for _ in range(dim)]))
    run(ctx, b, ops, "far nests", 10)


def c06(ctx):
    ctx.model_check("MCLoops")
    b = ctx.build("flat", [(H, ["-DH_FLAT"])])
    rng = random.Random(ctx.seed)
    forms = ["carr", "sarr", "view"]
    # every extent vector with up to 4 dimensions: all coordinates
    exts = [[]]
    out = []
    for dim in range(1, 5):
        exts = [e + [x] for e in exts for x in range(1, (6 if ctx.thorough else 5) if dim < 4 else 4)]
        out += exts
    ops = []
    for k, e in enumerate(out):
        p = 1
        for x in e:
            p *= x
        if p <= (400 if ctx.thorough else 150):
            for f in (forms if ctx.thorough or len(e) < 4 else [forms[k % 3], forms[(k + 1) % 3]]):
                ops.append({"op": "flatall", "form": f, "ext": e})
    for e in [[17, 31], [31, 17], [1, 257], [257, 1], [6, 7, 8], [8, 7, 6], [2, 3, 4, 5, 6], [3, 1, 2, 1, 4, 2], [2] * 6, [64, 64]]:
        for f in forms:
            ops.append({"op": "flatall", "form": f, "ext": e})
    run(ctx, b, ops, "all coordinates of all small extents", 20)
    ops = []
    for k in range(3000 if ctx.thorough else 400):
        dim = rng.randrange(1, 7)
        top = {1: 40, 2: 31, 3: 20, 4: 15, 5: 12, 6: 10}[dim]
        e = [rng.randrange(1, 1 << rng.randrange(1, min(top, 30) + 1)) for _ in range(dim)]
        c = [[rng.randrange(x) for x in e] for _ in range(4)] + [[x - 1 for x in e]]
        for f in forms:
            ops.append({"op": "flat", "form": f, "ext": e, "c": c})
    run(ctx, b, ops, "random coordinates of large extents", 20)


TABLE = {"C05": c05, "C06": c06}
