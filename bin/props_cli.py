"""The program: C18 dispatch, refusals and exit status; C19 its self-check."""
import os, random, re, subprocess
import concurrent.futures as cf
from vf import *
from props_prod import RT, rt, h
from props_var import ARCH, RELEASE, more_sources

APP = os.path.join(REPO, "src", "matrix_multiply_application")
FLAG = {"alg": "algorithm", "n": "n-value", "bt": "transposed", "reps": "repetitions", "verbose": "verbose", "check": "check",
        "br": "block-result", "bi": "block-input", "mws": "min-work-size", "mwd": "max-work-difference", "rel": "max-relative-work-difference"}
OPTIONS = sorted(FLAG.values()) + ["help"]
DEF = {"alg": "single", "n": 4, "bt": True}
LOOPS = ("algorithms", "looped", "semi")


def app_sources():
    return [os.path.join(APP, f) for f in sorted(os.listdir(APP)) if f.endswith(".cpp")]


def get(c, k):
    return c["opt"].get(k, DEF.get(k))


def argv(c, rng):
    a = []
    for k, v in c["opt"].items():
        if k == "help":
            a.append(["--help"])
        elif k in FLAG:
            v = rng.choice(["true", "1", "yes", "on"] if v else ["false", "0", "no", "off"]) if isinstance(v, bool) else str(v)
            # a value that is empty or looks like an option has to be joined to its option
            if v == "" or v.startswith("-") or rng.random() < 0.5:
                a.append(["--%s=%s" % (FLAG[k], v)] if v else ["--" + FLAG[k], ""])
            else:
                a.append(["--" + FLAG[k], v])
    rng.shuffle(a)
    return [y for x in a for y in x]


def fit(c, rng):
    """Sizes, blocks and cluster shapes the algorithm is made for."""
    o = c["opt"] if isinstance(c["opt"], dict) else {}
    c["opt"] = o
    o["x"] = 0
    a = get(c, "alg")
    if a == "kernel_test":
        o["n"] = 512
        o["bt"] = False
        o["reps"] = 1
        if "verbose" in o:
            o["verbose"] = min(o["verbose"], 1)
    n = get(c, "n")
    if rng.random() < 0.7:
        o["br"] = rng.choice([1, 2, 3, 4, 8, n, 128] + ([0] if a in ("single", "pseudodynamic") else []))
        if a in ("single", "pseudodynamic") and o["br"] and n // o["br"] > 8:
            o["br"] = 0
    if rng.random() < 0.7:
        o["bi"] = rng.choice([1, 2, 3, 4, 8, n, 128] + ([0] if a in ("single", "pseudodynamic") else []))
    if a == "pseudodynamic" and rng.random() < 0.8:
        o.update(mws=rng.choice([1, 2, 4, 256]) if n < 12 else n // 2, mwd=rng.choice([1, 4, 10000]), rel=rng.choice([0.0, 0.05, 0.5]))
    c["env"] = {"VRT_LOCALITIES": str(rng.choice([1, 2, 3, 4])), "VRT_STRATEGY": rng.choice(["eager", "fifo", "lifo", "random"]),
                "VRT_SEED": str(rng.randrange(1, 1000))}
    c["seed"] = rng.randrange(1 << 30)
    return c


NUM = r"([-+0-9.eE]+|inf|nan|-nan)"


def ppm(a, b):
    try:
        a, b = float(a), float(b)
    except ValueError:
        return 1000000
    if a == b:
        return 0
    m = max(abs(a), abs(b))
    if not m < 1e300:
        return 0 if str(a) == str(b) else 1000000
    return int(min(1e6, abs(a - b) / m * 1e6)) if m else 0


def events(c, out, trace, status):
    """What the program printed, ran and returned, in the terms of Cli.tla."""
    ev = []
    seen = []
    results = []
    for l in trace.splitlines():
        w = l.split()
        if w[0] == "result":
            results.append({"e": "result", "len": int(w[1]), "wrong": [
                {"i": int(x), "fin": f == "1", "d": int(d)} for x, f, d in (y.split(":") for y in w[2:])]})
        elif l not in seen:
            seen.append(l)
    ev += [{"e": "ran", "what": s} for s in sorted(seen)]
    if "dev" in c:
        ev += results
        # the tampered library tells no classes; what ran is not the question there
        if results:
            a = get(c, "alg")
            ev = [{"e": "ran", "what": x} for x in {"single": ["recursive"], "pseudodynamic": ["recursive", "static_improved"]}.get(a, [a])] + ev
    elif seen:
        ev.append({"e": "assume"})
    facts = []
    if re.search(r"--n-value\b", out):
        names = [o for o in OPTIONS if re.search(r"--%s\b(?!-)" % o, out)]
        facts.append((0, {"e": "opts", "names": names}))
    n = get(c, "n")
    for m in re.finditer(r"(matrix A|matrix B|matrix C|matrix Cref|diff_matrix):\n((?:.*\n){%d})" % n, out):
        facts.append((m.start(), {"e": "mat", "name": m.group(1).replace("matrix ", "").replace("diff_matrix", "diff"),
                                  "rows": [r.split(", ") for r in m.group(2).splitlines()]}))
    total = None
    for m in re.finditer(r"\[N = (\d+)\] total time: %ss" % NUM, out):
        total = m.group(2)
        facts.append((m.start(), {"e": "total", "n": int(m.group(1))}))
    for m in re.finditer(r"\[N = (\d+)\] average time per run: %ss \(repetitions = (\d+)\)" % NUM, out):
        p = 0 if total is None else ppm(float(m.group(2)) * int(m.group(3)), total)
        facts.append((m.start(), {"e": "avg", "n": int(m.group(1)), "reps": int(m.group(3)), "ppm": p}))
    for m in re.finditer(r"\[N = (\d+)\] performance: %sGflops" % NUM, out):
        k = int(m.group(1))
        p = 0 if total is None or float(total) == 0 else ppm(float(m.group(2)), 2e-9 * k ** 3 * (1 if get(c, "alg") in LOOPS else c["opt"].get("reps", 1)) / float(total))
        facts.append((m.start(), {"e": "perf", "n": k, "ppm": p}))
    for m in re.finditer(r"\"(.*)\" not a valid algorithm", out):
        facts.append((m.start(), {"e": "invalid", "name": m.group(1)}))
    for m in re.finditer(r"check (passed|failed)", out):
        facts.append((m.start(), {"e": "verdict", "pass": m.group(1) == "passed"}))
    facts.sort(key=lambda f: f[0])
    return ev + [f for _, f in facts] + [{"e": "exit", "status": status}]


def runner(ctx, binary, limit=100, jobs=None):
    """binary: path, or function of a case giving one."""
    def run(cases):
        for k, c in enumerate(cases):
            c["id"] = k + 1
        ctx.n += 1
        tag = ctx.n

        def one(c):
            t = ctx.path("cli_%d_%d" % (tag, c["id"]))
            e = dict(os.environ, VF_CLI=t, OMP_NUM_THREADS="2", VF_N=str(get(c, "n")), **c["env"])
            if c.get("dev"):
                e["VF_DEV"] = " ".join("%s %d %s" % (d["op"], d["i"], d["x"]) for d in c["dev"])
                e["VF_CALL"] = str(c.get("call", 0))
            b = binary(c) if callable(binary) else binary
            cmd = [b] + argv(c, random.Random(c["seed"]))
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=e, timeout=limit, cwd=ctx.dir, stdin=subprocess.DEVNULL)
                st, out = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                return {"id": c["id"], "cfg": c, "ev": [{"e": "fault", "what": "time limit"}]}
            tr = ""
            if os.path.exists(t):
                with open(t) as f:
                    tr = f.read()
                os.remove(t)
            return {"id": c["id"], "cfg": c, "ev": events(c, out, tr, st)}
        with cf.ThreadPoolExecutor(jobs or NCPU) as ex:
            return list(ex.map(one, cases))
    return run


def app_build(ctx, name, main_flags, flags, extra, link=(), per_lib=()):
    srcs = [(s, list(main_flags)) for s in app_sources()] + [(s, list(per_lib)) for s in more_sources(True)]
    srcs += rt("vrt.cpp") + rt("hpxshim.cpp") + rt("hpxinit.cpp") + extra
    return ctx.build(name, srcs, flags=ARCH + ["-fopenmp"] + list(flags), incs=[RT],
                     link=["-rdynamic", "-fopenmp", "-lboost_program_options", "-ldl"] + list(link))


INSTR = ["-finstrument-functions", "-finstrument-functions-exclude-file-list=%s,bits/,ext/,boost/,/usr/" % RT]


def grid(rng):
    cases = []
    for a in ["single", "pseudodynamic", "combined", "kernel_tiled", "kernel_test"] + list(LOOPS):
        for bt in (False, True):
            for chk in (False, True):
                for v in (0, 1, 2):
                    if a == "kernel_test" and (bt or v):
                        continue
                    cases.append({"opt": {"alg": a, "n": rng.randint(1, 9), "bt": bt, "check": chk, "verbose": v, "reps": rng.choice([1, 2, 3])}})
        cases.append({"opt": {"alg": a, "help": True}})
        cases.append({"opt": {"alg": a}})
    cases += [{"opt": {}}, {"opt": {"help": True}}, {"opt": {"check": True}}, {"opt": {"alg": "nothing", "help": True}},
              {"opt": {"alg": "nothing"}}, {"opt": {"alg": "nothing", "check": True, "verbose": 2}}]
    for a in sorted(POINT):
        cases += [{"opt": {"alg": x, "n": rng.randint(1, 6), "bt": False, "check": rng.random() < 0.5}}
                  for x in (a + "s", a + "ing", a + "_2", a[:-1], a[1:], "x" + a, a[:4], a.upper(), a.capitalize(), a + " ")]
    return [fit(c, rng) for c in cases]


def c18(ctx):
    ctx.model_check("MCCli")
    if ctx.thorough:
        ctx.model_check("MCCli", "MCCliT.cfg", timeout=1500)
    rng = random.Random(ctx.seed)
    b = app_build(ctx, "cli", INSTR, [], [h("cli_trace.cpp")], per_lib=INSTR)
    ctx.conform("TraceCli", grid(rng), runner(ctx, b), label="every algorithm and flag")
    g = [{"opt": c["opt"]} for c in ctx.generate("GenCli", 6000 if ctx.thorough else 500, depth=20)]
    seen, cases = 0, []
    for c in g:
        fit(c, rng)
        seen += get(c, "alg") == "kernel_test"
        if get(c, "alg") != "kernel_test" or seen <= (40 if ctx.thorough else 6):
            cases.append(c)
    ctx.conform("TraceCli", cases, runner(ctx, b), label="generated command lines")


def symbol(ctx, objs, prefix):
    """Mangled name of the function whose readable name starts with prefix."""
    for o in objs:
        r = subprocess.run(["nm", o], capture_output=True, text=True)
        names = [l.split()[-1] for l in r.stdout.splitlines() if " T " in l or " W " in l or " U " in l]
        d = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.splitlines()
        for m, q in zip(names, d):
            if q.startswith(prefix + "(") and "[clone" not in q:
                return m
    return None


# algorithm: function whose result is tampered with, and a header if it is defined there
POINT = {"kernel_tiled": ("kernel_tiled::kernel_tiled::matrix_multiply", None),
         "kernel_test": ("kernel_test::kernel_test::matrix_multiply", None),
         "combined": ("combined::combined::matrix_multiply", None),
         "semi": ("semi::semi::matrix_multiply", None),
         "pseudodynamic": ("multiply_components::static_improved::matrix_multiply", None),
         "single": ("multiply_components::recursive::distribute_recursively", None),
         "algorithms": ("algorithms::algorithms::matrix_multiply", "variants/algorithms.hpp"),
         "looped": ("looped::looped::matrix_multiply", "variants/looped.hpp")}


def tampered(ctx, alg, main_flags, tag):
    """The program with a library whose results are changed; None if it cannot be had."""
    fn, header = POINT[alg]
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + RT, "-I" + HARN]
    base = [CXX, "-std=c++14", "-w", "-O1", "-fopenmp"] + ARCH + inc
    try:
        objs = ctx.app_objs
    except AttributeError:
        libs = more_sources(True) + [os.path.join(RT, f) for f in ("vrt.cpp", "hpxshim.cpp", "hpxinit.cpp")]
        objs = ctx.app_objs = [ctx.path("app_%d.o" % k) for k in range(len(libs))]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for s, r in zip(libs, ex.map(lambda t: subprocess.run(base + ["-c", t[0], "-o", t[1]], capture_output=True, text=True), zip(libs, objs))):
                if r.returncode:
                    raise ToolError("compile failed: %s\n%s" % (s, r.stderr[-3000:]))
    mains = []
    for s in app_sources():
        o = ctx.path("main_%s_%s.o" % (tag, os.path.basename(s)))
        if not os.path.exists(o):
            r = subprocess.run(base + list(main_flags) + ["-c", s, "-o", o], capture_output=True, text=True)
            if r.returncode:
                raise ToolError("compile failed: %s\n%s" % (s, r.stderr[-3000:]))
        mains.append(o)
    out = ctx.path("tamper_%s_%s" % (alg, tag))
    w = ctx.path("wrap_%s.cpp" % alg)
    link, more = [], []
    sig = "(void *, long, long, long)"
    if header is None:
        sym = symbol(ctx, objs, fn)
        if not sym:
            return None
        orig, mine = "__real_" + sym, "__wrap_" + sym
        link = ["-Wl,--wrap=" + sym]
    else:
        t = ctx.path("tiny_%s" % alg)
        with open(t + ".cpp", "w") as f:
            f.write('#include <hpx/hpx_init.hpp>\n#include <hpx/include/util.hpp>\n#include <cstdint>\n#include <iostream>\n#include <random>\n#include "util/matrix_multiplication_exception.hpp"\n'
                    '#include "util/util.hpp"\n#include "%s"\nauto vf_keep_%s = &%s;\n' % (header, alg, fn))
        r = subprocess.run(base + ["-c", t + ".cpp", "-o", t + ".o"], capture_output=True, text=True)
        if r.returncode:
            ctx.log("no tampered %s: %s" % (alg, r.stderr[-300:]))
            return None
        sym = symbol(ctx, [t + ".o"], fn)
        if not sym:
            return None
        orig, mine = sym + "_vforig", sym
        r = subprocess.run(["objcopy", "--redefine-sym", "%s=%s" % (sym, orig), t + ".o"], capture_output=True, text=True)
        if r.returncode:
            return None
        more = [t + ".o"]
    with open(w, "w") as f:
        f.write('#include "cli_wrap.hpp"\nextern "C" std::vector<double> %s%s;\nextern "C" std::vector<double> %s(void *t, long a, long b, long c) {\n'
                '  return vf::tamper(%s(t, a, b, c));\n}\n' % (orig, sig, mine, orig))
    r = subprocess.run(base + ["-c", w, "-o", w + ".o"], capture_output=True, text=True)
    if r.returncode:
        raise ToolError("compile failed: %s\n%s" % (w, r.stderr[-3000:]))
    r = subprocess.run([CXX, w + ".o"] + mains + objs + more + ["-o", out, "-fopenmp", "-lboost_program_options"] + link, capture_output=True, text=True)
    if r.returncode:
        ctx.log("no tampered %s: %s" % (alg, r.stderr[-300:]))
        return None
    # does the change reach the program?
    e = dict(os.environ, VF_CLI=out + ".t", OMP_NUM_THREADS="2")
    n = 512 if alg == "kernel_test" else 3
    e["VF_N"] = str(n)
    try:
        subprocess.run([out, "--algorithm", alg, "--n-value", str(n), "--transposed", "false" if alg in ("combined", "kernel_test") else "true"],
                       capture_output=True, env=e, timeout=100)
    except subprocess.TimeoutExpired:
        return None
    return out if os.path.exists(out + ".t") and "result" in open(out + ".t").read() else None


def clear_cut(recs):
    """Differences within rounding of the limit are left out."""
    return [r for r in recs if not any(99900 < abs(x["d"]) < 100100 for e in r["ev"] if e["e"] == "result" for x in e["wrong"])]


def c19(ctx):
    ctx.model_check("MCCli")
    if ctx.thorough:
        ctx.model_check("MCCli", "MCCliT.cfg", timeout=1500)
    rng = random.Random(ctx.seed)
    bins = {}
    for alg in sorted(POINT):
        b = tampered(ctx, alg, ["-fno-inline"], "plain")
        if b:
            bins[alg] = b
    ctx.log("results can be changed in: " + ", ".join(sorted(bins)))
    ctx.cover["tampered"] = sorted(bins)
    if len(bins) < 2:
        raise ToolError("the program could not be linked with a changed library")
    for alg in ("kernel_tiled", "semi", "single"):
        if alg in bins:
            b = tampered(ctx, alg, RELEASE, "released")
            if b:
                bins[alg + " released"] = b
    run = lambda cases: clear_cut(runner(ctx, lambda c: c["bin"] in bins and bins[c["bin"]])(cases))
    cases = []
    for alg in sorted(bins):
        a = alg.split()[0]
        # every element of a small result in turn
        if a != "kernel_test":
            for n in (1, 2, 3):
                for i in range(n * n):
                    for x in ("nan", "inf", "-inf", "1.1e-10", "-1.1e-10", "9e-11", "1", "-2e-9"):
                        if rng.random() < (1 if ctx.thorough else 0.25):
                            cases.append({"opt": {"alg": a, "n": n, "check": True, "bt": a in LOOPS or a != "combined" and rng.random() < 0.5},
                                          "dev": [{"op": "add", "i": i, "x": x}], "bin": alg})
            for n in (1, 2, 4):
                for k in {0, 1, n * n - 1, n * n + 1, n * n + n, 2 * n * n}:
                    cases.append({"opt": {"alg": a, "n": n, "check": True, "bt": a in LOOPS or a != "combined" and rng.random() < 0.5},
                                  "dev": [{"op": "resize", "i": k, "x": "0"}], "bin": alg})
            cases.append({"opt": {"alg": a, "n": 4, "check": True, "bt": a != "combined"}, "dev": [], "bin": alg})
    for c in cases:
        fit(c, rng)
    ctx.conform("TraceCli", cases, run, label="one element wrong, or too few or many")
    g = ctx.generate("GenCli", 5000 if ctx.thorough else 500, depth=20, env={"VF_TAMPER": 1})
    cases, tests = [], 0
    for c in g:
        fit(c, rng)
        a = get(c, "alg")
        names = [x for x in bins if x.split()[0] == a]
        if not names:
            continue
        if a == "kernel_test":
            tests += 1
            if tests > (30 if ctx.thorough else 5):
                continue
            for d in c["dev"]:
                if d["op"] == "resize" and d["i"]:
                    d["i"] += 512 * 512 - 16
        c["bin"] = rng.choice(names)
        c["call"] = rng.choice([0, 0, 1, 2]) if a == "single" else 0
        cases.append(c)
    ctx.conform("TraceCli", cases, run, label="generated results")


TABLE = {"C18": c18, "C19": c19}
