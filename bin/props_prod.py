"""Products: C08 naive, C09 block kernels, C17 stand-alone kernels, ..."""
import os, random
from vf import *

RT = os.path.join(VERIF, "rt")
# no promotion of shared variables to registers: the interleavings are those of the source
MONF = ["-fsanitize=thread", "-DVRT_MON", "-fno-tree-loop-im", "-fno-tree-pre"]
WRAP = ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=free,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock"]


def h(name):
    return os.path.join(HARN, name)


def rt(*names):
    return [os.path.join(RT, n) for n in names]


def mon_build(ctx, name, srcs, hpx=False, omp=True, incs=(), **kw):
    """Harness on the runtime, its memory accesses monitored, its tasks preemptible anywhere."""
    fl = MONF + (["-fopenmp"] if omp else [])
    ss = [(s, fl) if not isinstance(s, tuple) else (s[0], list(s[1]) + fl) for s in srcs]
    ss += rt("vrt.cpp", "tsan.cpp")
    if omp:
        ss += rt("gomp.cpp")
    link = list(WRAP)
    if hpx:
        ss += rt("hpxshim.cpp")
        link += ["-lboost_program_options"]
    return ctx.build(name, ss, incs=[RT] + list(incs), link=link, **kw)


def omp_build(ctx, name, srcs, incs=(), **kw):
    """OpenMP harness: (monitored on the runtime or None, with the system's OpenMP)."""
    try:
        m = mon_build(ctx, name + "_mon", srcs, incs=incs, **kw)
    except ToolError as e:
        if "link failed" not in str(e):
            raise
        ctx.log("OpenMP constructs beyond the deterministic runtime: using the system's OpenMP only")
        m = None
    ss = [(s, ["-fopenmp", "-DREAL_OMP", "-fno-tree-loop-im", "-fno-tree-pre"]) if not isinstance(s, tuple) else (s[0], list(s[1]) + ["-fopenmp", "-DREAL_OMP", "-fno-tree-loop-im", "-fno-tree-pre"]) for s in srcs]
    link = list(kw.pop("link", [])) + ["-fopenmp"]
    r = ctx.build(name + "_omp", ss + rt("vrt.cpp"), incs=[RT] + list(incs), link=link, **kw)
    return m, r


def poly(rng):
    return {"kind": "poly", "c": [rng.randrange(1, 150) for _ in range(6)]}


SCALES = [(1, 1), (0.125, 1), (1048577, 1), (1, 1048577), (-0.5, 3), (1, -0.25)]


def operands(rng, n, k=0, ty="double"):
    """Inputs number k for size n; scaled so that a lossy type in between shows."""
    d = {"n": n, "a": poly(rng), "b": poly(rng), "ty": ty}
    if k % 5 == 4 and n:
        which = rng.choice("ab")
        d[which] = {"kind": "unit", "c": [rng.randrange(n), rng.randrange(n)]}
    if ty == "double":
        d["sa"], d["sb"] = SCALES[k % len(SCALES)]
    elif ty == "float":
        d["sa"], d["sb"] = [(1, 1), (0.125, 1), (1, -0.25)][k % 3]
    elif ty == "long":
        d["sa"], d["sb"] = [(1, 1), (1048577, 1)][k % 2]
    return d


def residues(rng, n, k=0, ty="double"):
    """Operands for large products: elements depend on indices modulo a prime (spec/Product.tla, Residues)."""
    d = operands(rng, 0, k, ty)
    p = rng.choice([11, 13])
    for q in "ab":
        d[q] = {"kind": "res", "c": [rng.randrange(1, 150) for _ in range(6)] + [p]}
    d["n"] = n
    return d


def sched(rng, k, preempt=0):
    s = ["random", "eager", "random", "fifo", "random", "lifo"][k % 6]
    d = {"strategy": s, "seed": rng.randrange(1 << 20), "chunk": rng.choice([1, 1, 2, 0]), "back": rng.randrange(2),
         "threads": [2, 3, 4, 8, 1, 5][k % 6]}
    if preempt and s == "random":
        d["preempt"] = preempt
    if k % 7 == 3:  # OpenMP: teams smaller than asked for
        d["limit"] = 1 + k % 3
        d["nested"] = k % 2
    return d


def c08(ctx):
    for c in ["MCThreads", "MCThreads3"] + (["MCThreadsT"] if ctx.thorough else []):
        ctx.model_check("MCThreads", c + ".cfg")
    ctx.model_check("MCProduct")
    rng = random.Random(ctx.seed)
    m, r = omp_build(ctx, "naive", [h("naive_h.cpp")])
    types = ["double", "float", "int", "long"]
    if m:
        cases = []
        k = 0
        for n in range(0, 25 if ctx.thorough else 17):
            for bt in (False, True):
                for ty in types:
                    for rep in range(4 if ctx.thorough else 2 if n < 10 else 1):
                        k += 1
                        c = dict(operands(rng, n, k, ty), bt=bt, reps=1 + k % 2)
                        c.update(sched(rng, k, rng.choice([1, 2, 5, 20]) if n < 10 else 50))
                        cases.append(c)
        ctx.conform("TraceProduct", cases, lambda c: ctx.replay(m, c), label="all small N, interleaved threads")
        ctx.conform("TraceProduct", sequences(rng, cases, 40), lambda c: ctx.replay(m, c), label="sequences, interleaved threads")
    cases = []
    k = 0
    for n in list(range(0, 40, 3)) + [1, 32, 64] + ([100, 129, 200, 255, 256, 257, 300, 400, 512, 513] if ctx.thorough else [100, 129, 200, 256, 257]):
        for bt in (False, True):
            for ty in (types if n < 50 else ["double", "float"]):
                k += 1
                cases.append(dict(operands(rng, n, k, ty), bt=bt, threads=[1, 2, 3, 4, 8, 16][k % 6], nested=int(k % 5 == 2)))
    for n in [64, 127, 256, 500, 512, 700] + ([513, 1023, 1024, 1025, 1100, 1300] if ctx.thorough else []):
        for bt in (False, True):
            for ty in types:
                k += 1
                cases.append(dict(residues(rng, n, k, ty), bt=bt, threads=[1, 2, 3, 4, 8, 16][k % 6], nested=int(k % 5 == 2)))
    ctx.conform("TraceProduct", cases, lambda c: ctx.replay(r, c), label="larger N, system threads")
    ctx.conform("TraceProduct", sequences(rng, [c for c in cases if c["n"] < 70], 40), lambda c: ctx.replay(r, c), label="sequences, system threads")


ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g"]
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:exitcode=77:abort_on_error=0",
            "UBSAN_OPTIONS": "exitcode=77"}


def c09(ctx):
    ctx.model_check("MCKernel")
    if ctx.thorough:
        ctx.model_check("MCKernel", "MCKernelT.cfg")
    rng = random.Random(ctx.seed)
    b = ctx.build("kern", [h("kern_h.cpp")] + rt("vrt.cpp"), incs=[RT])
    s = ctx.build("kern_asan", [(h("kern_h.cpp"), ASAN)] + rt("vrt.cpp"), incs=[RT], link=ASAN)
    try:
        m = ctx.build("mult", [(h("kern_h.cpp"), ["-DH_MULT"])] + rt("vrt.cpp", "hpxshim.cpp"), incs=[RT],
                      link=["-lboost_program_options"])
    except ToolError as e:
        ctx.log("multiplier does not build on the runtime: kernels only", str(e)[-300:])
        m = None
    types = ["double", "float", "int", "long"]
    gen = ctx.generate("GenKernel", 0, simulate=False, env={"VF_N": 13 if ctx.thorough else 9})
    kern, mult = [], []
    for k, g in enumerate(gen):
        ty = "double" if g["form"] == "mult" else types[k % 4]
        c = dict(g, **operands(rng, g["n"], k // 4, ty))
        (mult if g["form"] == "mult" else kern).append(c)
    # larger ones: edges and chunk lengths around the register blocking
    for n, e in [(16, 8), (17, 12), (20, 16), (24, 24), (33, 4), (40, 20)] + ([(64, 32), (65, 16), (100, 12)] if ctx.thorough else []):
        for ch in [1, 3, 4, 7, 8, 16, n - 1, n, n + 1, 3 * n, 64]:
            for form, bt in [("plain", False), ("trans", True), ("blocked", True), ("mult", True), ("mult", False)]:
                if form in ("plain", "trans") and ch != 1:
                    continue
                at = [[0, 0], [n - e, n - e], [0, n - e], [rng.randrange(n - e + 1), rng.randrange(n - e + 1)]]
                c = dict(n=n, e=e, form=form, ch=ch, bt=bt, at=at)
                k = len(kern) + len(mult)
                c.update(operands(rng, n, k, "double" if form == "mult" else types[k % 4]))
                (mult if form == "mult" else kern).append(c)
    ctx.conform("TraceProduct", kern, lambda c: ctx.replay(b, c), label="all small blocks")
    ctx.conform("TraceProduct", kern[::3 if not ctx.thorough else 1], lambda c: ctx.replay(s, c, env=ASAN_ENV), label="with sanitizer")
    ctx.conform("TraceProduct", sequences(rng, kern, 150), lambda c: ctx.replay(b, c), label="sequences of calls")
    if m:
        ctx.conform("TraceProduct", mult, lambda c: ctx.replay(m, c), label="kernel selection")
        ctx.conform("TraceProduct", sequences(rng, mult, 80), lambda c: ctx.replay(m, c), label="sequences of multipliers")


EXP = os.path.join(REPO, "otherExperiments")
# kernel: (block, B transposed)
EXPK = {"naive": (1, False), "transposed": (1, True), "counter": (1, True), "blocked2": (2, True), "blocked4": (4, True),
        "asm": (4, True), "exchanged": (128, False), "intrinLoop": (128, False), "gpu": (128, True),
        "register": (256, False), "gpuasm": (256, True)}


def exp_srcs(fl):
    fs = sorted(f for f in os.listdir(EXP) if f.endswith(".cpp") and f != "benchmark.cpp")
    return [(h("exp_h.cpp"), ["-I" + EXP] + fl)] + [(os.path.join(EXP, f), ["-w", "-I" + EXP] + fl) for f in fs]


def exp_cases(ctx, rng, sizes, bigsizes):
    cases = []
    for k, (name, (blk, bt)) in enumerate(EXPK.items()):
        for n in (sizes if blk <= 4 else bigsizes):
            if n % blk:
                continue
            for rep in range(3 if n <= 24 else 1):
                q = len(cases)
                c = dict(operands(rng, n, q + k), kernel=name, bt=bt, reps=1 + q % 2)
                c.update(sched(rng, q))
                cases.append(c)
    return cases


def c17(ctx):
    ctx.model_check("MCPanels")
    if ctx.thorough:
        ctx.model_check("MCPanels", "MCPanelsT.cfg", timeout=1500)
    rng = random.Random(ctx.seed)
    vec = ["-std=c++11", "-mavx2", "-ffast-math", "-funsafe-math-optimizations"]
    small = list(range(0, 33)) + [36, 48, 64] + ([96, 100, 128] if ctx.thorough else [])
    big = [128, 256, 384, 512] + ([640, 768] if ctx.thorough else [])
    # as its makefile builds it, with the system's threads
    b = ctx.build("exp", exp_srcs(vec + ["-O3", "-mfma", "-fopenmp", "-DREAL_OMP"]) + rt("vrt.cpp"), incs=[RT], link=["-fopenmp"])
    ctx.conform("TraceProduct", exp_cases(ctx, rng, small, big), lambda c: ctx.replay(b, c), label="as built by its makefile", heap="6g")
    ctx.conform("TraceProduct", sequences(rng, exp_cases(ctx, rng, small, [128]), 40), lambda c: ctx.replay(b, c), label="sequences of calls", heap="6g")
    cases = []
    for name, (blk, bt) in EXPK.items():
        for n in [256, 384, 512, 600, 768] + ([640, 896, 1000, 1024, 1280] if ctx.thorough else []):
            if n % blk == 0:
                c = dict(residues(rng, n, len(cases)), kernel=name, bt=bt, reps=1)
                c.update(sched(rng, len(cases)))
                cases.append(c)
    ctx.conform("TraceProduct", cases, lambda c: ctx.replay(b, c, limit=60), label="large", heap="6g")
    # without fused operations and unsafe optimisations
    b = ctx.build("exp2", exp_srcs(["-std=c++11", "-mavx2", "-O1", "-fopenmp", "-DREAL_OMP"]) + rt("vrt.cpp"), incs=[RT], link=["-fopenmp"])
    ctx.conform("TraceProduct", exp_cases(ctx, rng, small[::4], big[:2]), lambda c: ctx.replay(b, c), label="without fused multiply-add", heap="6g")
    # threads interleaved anywhere
    try:
        m = mon_build(ctx, "exp_mon", exp_srcs(["-std=c++11", "-mavx2", "-mfma"]))
    except ToolError as e:
        if "link failed" not in str(e):
            raise
        ctx.log("OpenMP constructs beyond the deterministic runtime: system threads only")
        m = None
    if m:
        cases = exp_cases(ctx, rng, small[:13], [256])
        for k, c in enumerate(cases):
            if c["strategy"] == "random":
                c["preempt"] = rng.choice([1, 2, 5, 20]) if c["n"] < 25 else 20000
            if c["n"] > 24:
                c["reps"] = 1
        ctx.conform("TraceProduct", cases, lambda c: ctx.replay(m, c, limit=120), label="interleaved threads", heap="6g")
    # no access outside the matrices
    s = ctx.build("exp_asan", exp_srcs(["-std=c++11", "-mavx2", "-mfma", "-fopenmp", "-DREAL_OMP", "-DEXACT"] + ASAN) + rt("vrt.cpp"),
                  incs=[RT], link=["-fopenmp"] + ASAN)
    ctx.conform("TraceProduct", exp_cases(ctx, rng, small[::5], [256]), lambda c: ctx.replay(s, c, env=ASAN_ENV, limit=120),
                label="with sanitizer", heap="6g")


TABLE = {"C17": c17, "C09": c09, "C08": c08}
