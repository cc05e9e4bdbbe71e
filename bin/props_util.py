"""C20 builders and transposition, C25 printing."""
import os, random, time
from vf import *

H = os.path.join(HARN, "util_h.cpp")
RT = os.path.join(VERIF, "rt")


def rtlib():
    return [os.path.join(RT, "vrt.cpp"), os.path.join(RT, "hpxshim.cpp")]


def c20(ctx):
    ctx.model_check("MCMatrices", "MCMatricesT.cfg" if ctx.thorough else "MCMatrices.cfg")
    b = ctx.build("util", [(H, ["-DH_BUILD"])])
    types = ["double", "int", "float", "long", "string", "aligned"]
    run = lambda c: ctx.replay(b, c)
    # what an earlier process saw from the random builder
    ns = list(range(1, 13)) + [17, 32, 33]
    recs = run([{"ty": "double", "ops": [{"op": "rand", "n": n} for n in ns]}])
    ref = [{"n": e["n"], "v": e["v"]} for e in recs[0]["ev"] if e["e"] == "rand"]
    t0 = time.time()
    # every shape up to 9 x 9 (thorough: 16), all builders
    top = 16 if ctx.thorough else 9
    cases = []
    for r in range(0, top + 1):
        for c in range(0, top + 1):
            ops = [{"op": "load", "rows": r, "cols": c, "seed": r * 31 + c}, {"op": "tr", "k": 1, "rows": r, "cols": c},
                   {"op": "tr", "k": 2, "rows": c, "cols": r}]
            if r == c:
                ops += [{"op": "trsq", "k": 1, "rows": r, "cols": c}, {"op": "trsq", "k": 4, "rows": r, "cols": c},
                        {"op": "ident", "n": r}, {"op": "enum", "n": r}]
            for t in (types if r == c or ctx.thorough else [types[(r + c) % 6], types[(r * c + 1) % 6]]):
                cases.append({"ty": t, "ops": ops})
    ctx.conform("TraceMatrices", cases, run, label="all small shapes")
    g = ctx.generate("GenMatrices", 1200 if ctx.thorough else 250, depth=20, env={"VF_OPS": 7, "VF_DIM": 6})
    cases = [dict(c, ty=types[k % 6]) for k, c in enumerate(g)]
    ctx.conform("TraceMatrices", cases, run, label="generated sessions")
    cases = []
    for n in [31, 64, 100, 257] if not ctx.thorough else [31, 64, 100, 128, 257, 400]:
        cases.append({"ty": "double", "every": 0, "ops": [{"op": "ident", "n": n}, {"op": "enum", "n": n}, {"op": "trsq", "k": 2, "rows": n, "cols": n}]})
    for r, c in [(1, 300), (300, 1), (70, 65), (3, 1000), (200, 33)]:
        cases.append({"ty": "int", "every": 0, "ops": [{"op": "load", "rows": r, "cols": c, "seed": 5}, {"op": "tr", "k": 1, "rows": r, "cols": c}]})
    for w, r, c, ty in [("ident", 4100, 4100, "double"), ("enum", 4100, 4100, "double"), ("enum", 4100, 4100, "long"), ("enum", 4100, 4100, "int"),
                        ("ident", 1025, 1025, "int"), ("enum", 2050, 2050, "float"), ("tr", 70000, 3, "double"), ("tr", 3, 70000, "int"),
                        ("tr", 1, 140000, "double"), ("tr", 300, 400, "aligned"), ("tr", 66000, 66, "double"), ("tr", 2050, 2100, "double")]:
        cases.append({"ty": ty, "every": 0, "ops": [{"op": "big", "what": w, "rows": r, "cols": c}]})
    ctx.conform("TraceMatrices", cases, run, label="large matrices")
    # random builder: interleaved sizes, several calls, another process, later
    time.sleep(max(0, 1.2 - (time.time() - t0)))
    rng = random.Random(ctx.seed)
    cases = []
    for k in range(24):
        seq = [rng.choice(ns) for _ in range(6)]
        cases.append({"ty": "double", "every": 0, "ref": ref, "ops": [{"op": "rand", "n": n} for n in seq + seq[::-1]]})
    cases.append({"ty": "double", "every": 0, "ref": ref, "ops": [{"op": "rand", "n": n} for n in [64, 100, 64, 100, 3]]})
    ctx.conform("TraceMatrices", cases, run, label="random builder")


def c25(ctx):
    ctx.model_check("MCMatrices")
    b = ctx.build("print", [(H, ["-DH_PRINT"])] + rtlib(), incs=[RT], link=["-lboost_program_options"])
    rng = random.Random(ctx.seed)
    types = ["double", "int", "float", "long", "string", "aligned", "quarter"]

    def mat(n, ty):
        return [rng.choice([0, 1, rng.randrange(-9, 10), rng.randrange(-999, 1000), rng.randrange(90000), rng.randrange(999999)]) if ty != "quarter"
                else rng.randrange(0, 4000) for _ in range(n)]
    ops = []
    top = 7 if not ctx.thorough else 12
    k = 0
    for r in range(0, top + 1):
        for c in range(0, top + 1):
            for ch in ("host", "hpx"):
                for tr in (False, True):
                    for sq in ([False, True] if r == c else [False]):
                        ty = types[k % 7]
                        k += 1
                        ops.append({"ch": ch, "tr": tr, "sq": sq, "rows": r, "cols": c, "ty": ty, "m": mat(r * c, ty)})
                        if r * c:
                            # too few elements
                            ty = types[(k // 2) % 7]
                            ops.append({"ch": ch, "tr": tr, "sq": sq, "rows": r, "cols": c, "ty": ty,
                                        "m": mat(rng.randrange(r * c), ty)})
                            if r * c > 1:
                                ops.append({"ch": ch, "tr": tr, "sq": sq, "rows": r, "cols": c, "ty": ty,
                                            "m": mat(r * c - 1, ty)})
    for r, c in [(1, 40), (40, 1), (33, 20), (20, 33), (30, 30), (2, 300), (300, 2), (1, 260), (260, 1)]:
        for ch in ("host", "hpx"):
            for tr in (False, True):
                ops.append({"ch": ch, "tr": tr, "sq": r == c, "rows": r, "cols": c, "ty": "double", "m": mat(r * c, "double")})
    rng.shuffle(ops)
    cases = [{"ops": ops[k:k + 6]} for k in range(0, len(ops), 6)]
    ctx.conform("TraceMatrices", cases, lambda c: ctx.replay(b, c), label="printers")


TABLE = {"C20": c20, "C25": c25}
