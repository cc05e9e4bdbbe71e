"""C26 the times and rates that are reported."""
import os, random, re
from vf import *
import props_cli as pc
from props_prod import RT, rt, h, operands, sched
from props_var import ARCH, ALGO, RELEASE, more_sources

CLOCKS = ["-Wl,--wrap=" + s for s in ("_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv", "omp_get_wtime",
                                      "clock_gettime", "gettimeofday")]
NUM = pc.NUM


def num(s):
    """A printed number as [m, e], m * 10^e, with at most six digits."""
    m = re.fullmatch(r"([-+]?)(\d*)\.?(\d*)(?:e([-+]?\d+))?", s)
    if not m or not m.group(2) + m.group(3):
        return [0, 0]
    d = (m.group(2) + m.group(3)).lstrip("0")
    e = int(m.group(4) or 0) - len(m.group(3))
    while len(d) > 6 or d.endswith("0"):
        d, e = d[:-1], e + 1
    v = int(d or 0) * (-1 if m.group(1) == "-" else 1)
    return [v, e] if v and abs(e) < 20 else [0, 0]


def figures(c, out, trace, status):
    spent = {}
    for l in trace.splitlines():
        w = l.split()
        if w[0] == "time":
            spent[w[1]] = spent.get(w[1], 0) + int(w[2])
    ev = [{"e": "time", "what": k, "d": v} for k, v in sorted(spent.items())]
    if status:
        return ev + [{"e": "fault", "what": "exit status %d" % status}]
    f = []
    for pat, mk in (
            (r"\[N = (\d+)\] total time: %ss" % NUM, lambda m: {"e": "total", "n": int(m[1]), "v": num(m[2])}),
            (r"\[N = (\d+)\] average time per run: %ss \(repetitions = (\d+)\)" % NUM, lambda m: {"e": "avg", "n": int(m[1]), "reps": int(m[3]), "v": num(m[2])}),
            (r"\[N = (\d+)\] performance: %sGflops" % NUM, lambda m: {"e": "perf", "n": int(m[1]), "v": num(m[2])}),
            (r"duration inner: %ss" % NUM, lambda m: {"e": "inner", "v": num(m[1])}),
            (r"\[X_size = (\d+), Y_size = (\d+), K_size = (\d+)\] inner performance: %sGflops" % NUM,
             lambda m: {"e": "innerrate", "sz": num(str(int(m[1]) * int(m[2]) * int(m[3]))), "v": num(m[4])}),
            (r"naive matMult took %s \[s\]" % NUM, lambda m: {"e": "ref", "v": num(m[1])}),
            (r"\[N = (\d+)\] performance reference: %s Gflops" % NUM, lambda m: {"e": "refrate", "n": int(m[1]), "v": num(m[2])})):
        f += [(m.start(), mk(m)) for m in re.finditer(pat, out)]
    f.sort(key=lambda t: t[0])
    return ev + [x for _, x in f] + [{"e": "done"}]


def clocked(ctx, b):
    def run(cases):
        keep, pc.events = pc.events, figures
        try:
            return pc.runner(ctx, b)(cases)
        finally:
            pc.events = keep
    return run


def runs(c):
    """Command lines that multiply."""
    a, bt = pc.get(c, "alg"), pc.get(c, "bt")
    known = ("single", "pseudodynamic", "combined", "kernel_tiled") + pc.LOOPS
    return a in known and not c["opt"].get("help") and not (a in pc.LOOPS and not bt) and not (a == "combined" and bt)


def small(c, rng):
    if pc.get(c, "n") > 6:
        c["opt"]["n"] = rng.randint(1, 6)
        for k in ("br", "bi", "mws", "mwd", "rel"):
            c["opt"].pop(k, None)
    return pc.fit(c, rng)


def c26(ctx):
    ctx.model_check("MCFigures")
    if ctx.thorough:
        ctx.model_check("MCFigures", "MCFiguresT.cfg")
    rng = random.Random(ctx.seed)
    b = pc.app_build(ctx, "clk", pc.INSTR, [], [h("cli_clock.cpp")], link=CLOCKS, per_lib=pc.INSTR)
    cases = []
    for a in ("single", "pseudodynamic", "combined", "kernel_tiled") + pc.LOOPS:
        for reps in (1, 2, 3):
            for chk in (False, True):
                for v in (0, 1, 2):
                    cases.append(pc.fit({"opt": {"alg": a, "n": rng.randint(1, 6), "bt": a != "combined", "check": chk, "verbose": v, "reps": reps}}, rng))
    # a size of its own, and it multiplies more than it is asked to
    cases = [c for c in cases if runs(c)]
    ctx.conform("TraceFigures", cases, clocked(ctx, b), label="every algorithm")
    g = [{"opt": c["opt"] if isinstance(c["opt"], dict) else {}} for c in ctx.generate("GenCli", 4000 if ctx.thorough else 400, depth=20)]
    g = [small(c, rng) for c in g if runs(c)]
    ctx.conform("TraceFigures", g, clocked(ctx, b), label="generated command lines")
    big = [{"opt": {"alg": "combined", "n": 1300, "reps": 1, "bt": False}}, {"opt": {"alg": "kernel_tiled", "n": 1030, "reps": 2, "bt": True}},
           {"opt": {"alg": "kernel_tiled", "n": 1700, "reps": 1}}, {"opt": {"alg": "combined", "n": 820, "reps": 2, "bt": False}}]
    big = [pc.fit(c, rng) for c in big]
    ctx.conform("TraceFigures", big, clocked(ctx, b), label="large sizes")
    for algo in ("COMBINED", "KTILED"):
        srcs, hpx, omp = ALGO[algo]
        fl = ARCH + ["-DH_" + algo] + (["-DH_HPX"] if hpx else ["-fopenmp"])
        ext = rt("vrt.cpp") + (rt("hpxshim.cpp") if hpx else [])
        link = CLOCKS + ["-fopenmp", "-Wl,--wrap=GOMP_parallel"] + (["-lboost_program_options"] if hpx else [])
        try:
            o = ctx.build("fig_" + algo.lower(), [(s, []) for s in [h("fig_h.cpp")] + srcs] + ext, flags=fl, incs=[RT], link=link)
        except ToolError as e:
            if "link failed" not in str(e):
                raise
            o = ctx.build("fig_" + algo.lower(), [(s, []) for s in [h("fig_h.cpp")] + more_sources(hpx)] + ext, flags=fl, incs=[RT], link=link)
        cases = []
        for n in [1, 2, 5, 16, 36, 65, 130] + ([257, 300] if ctx.thorough else []):
            for reps in (1, 2, 3, 5):
                k = len(cases)
                c = dict(operands(rng, n, k), bt=algo == "KTILED" and rng.random() < 0.5, reps=reps, calls=rng.choice([1, 2, 3]),
                         before=rng.choice([0, 1, -4, 400, 12345]), opt={"alg": algo.lower(), "n": n, "reps": reps, "check": False})
                c.update(sched(rng, k))
                cases.append(c)
        ctx.conform("TraceFigures", cases, lambda c: ctx.replay(o, c, limit=60), label=algo.lower() + ", durations handed back")


TABLE = {"C26": c26}
