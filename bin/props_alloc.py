"""C22 aligned allocation."""
import os
from vf import *

H = os.path.join(HARN, "alloc_h.cpp")
TYPES = ["char", "short", "float", "double", "b3", "b24", "b40", "v32"]


def c22(ctx):
    ctx.model_check("MCAlloc")
    if ctx.thorough:
        ctx.model_check("MCAlloc", "MCAllocT.cfg")
    wrap = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "aligned_alloc", "posix_memalign"))]
    bins = [ctx.build("alloc14", [H], link=wrap), ctx.build("alloc17", [H], std="c++17", opt="-O2", link=wrap)]
    # every type, alignment and placement once
    cases = []
    for t in TYPES:
        for a in range(0, 15 if not ctx.thorough else 17):
            for n in (1, 3, 16) if not ctx.thorough else (1, 2, 3, 7, 16, 33, 1000):
                ops = []
                for k, sh in enumerate([0, 1, 2, 3, 5, 11, 31, 63, 64, 65]):
                    ops += [{"op": "new", "o": k},
                            {"op": "alloc", "o": k, "t": t, "n": n, "a": 1 << a, "shift": sh, "in": "plain"},
                            {"op": "use", "o": k}]
                for k in range(10):
                    ops += [{"op": "check", "o": k}, {"op": "alloc", "o": k, "t": "double", "n": 2, "a": 8, "shift": 1, "in": "catch"},
                            {"op": "check", "o": k}]
                for k in (3, 0, 9, 1):
                    ops += [{"op": "destroy", "o": k}]
                cases.append({"ops": ops})
    for b in bins[:1 if not ctx.thorough else 2]:
        ctx.conform("TraceAlloc", cases, lambda c: ctx.replay(b, c), label="every placement")
    big = []
    for t in TYPES:
        for n, shl in [(1, 31), (1, 32), (5, 30), (3, 33), (65537, 16), (1, 36)]:
            for a in (1, 32, 64, 4096):
                big.append({"ops": [{"op": "xl", "o": 0, "t": t, "n": n, "shl": shl, "a": a}]})
    for b in bins:
        ctx.conform("TraceAlloc", big, lambda c: ctx.replay(b, c), label="extents of more than 2^31 bytes")
    gen = ctx.generate("GenAlloc", 4000 if ctx.thorough else 500, depth=60, env={"VF_OPS": 16})
    gen += ctx.generate("GenAlloc", 2000 if ctx.thorough else 250, depth=60, env={"VF_OPS": 7})
    for b in bins:
        ctx.conform("TraceAlloc", gen, lambda c: ctx.replay(b, c), label="generated lives")


TABLE = {"C22": c22}
