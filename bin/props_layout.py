"""C01-C04, parts of C21: the tiled memory layout."""
import os, random
from vf import *

H = os.path.join(HARN, "layout_h.cpp")
TYPES = ["double", "int", "float", "string", "aligned"]


def build(ctx, *parts):
    flags = ["-DH_" + p for p in parts]
    try:
        return ctx.build("layout_" + "_".join(parts).lower(), [H], flags=flags)
    except ToolError as e:
        # Works for the two-dimensional case only? Then the claim "every
        # dimensionality" is broken; otherwise the harness is at fault.
        ctx.build("layout2", [H], flags=flags + ["-DH_ONLYDIM=2"])
        bad = []
        for d in (1, 3, 4, 5, 6, 7):
            try:
                ctx.build("layoutd", [H], flags=flags + ["-DH_ONLYDIM=%d" % d])
            except ToolError:
                bad.append(d)
        if bad:
            raise Violation("%s: compiles for dimension 2 but not for %s" % (parts, bad), {"error": str(e)[-3000:]})
        raise


def all_layouts(ctx, maxdim, maxext, maxsize):
    """every layout within bounds, enumerated by TLC"""
    return ctx.generate("GenLayoutAll", 1, simulate=False,
                        env={"VF_MAXDIM": maxdim, "VF_MAXEXT": maxext, "VF_SIZE": maxsize})


def big_layouts():
    return [([4, 4], [64, 64]), ([3, 8], [48, 40]), ([16, 2], [32, 66]), ([5, 2, 3], [10, 8, 9]),
            ([7], [2100]), ([1, 16], [5, 256]), ([16, 1], [256, 5]), ([2, 3, 1, 4], [6, 6, 3, 8]),
            ([8, 8], [8, 8]), ([1, 1], [13, 7]), ([2, 1, 2, 1, 3], [4, 3, 2, 2, 6]),
            ([40, 24], [80, 72]), ([300], [900]), ([2, 130], [6, 260]), ([130, 2], [260, 6]),
            ([1, 2, 3, 1, 2, 2], [2, 4, 3, 2, 2, 6]), ([2, 1, 1, 3, 2, 1, 2], [2, 2, 3, 3, 4, 1, 4]), ([3, 1, 2, 2, 1], [3, 3, 4, 2, 5])]


def huge_layouts():
    """beyond 16-bit element counts and extents"""
    return [([50, 100], [300, 300]), ([7], [70007]), ([2, 1], [2, 33000]), ([1, 3], [33000, 3])]


def model(ctx):
    env = None
    ctx.model_check("MCLayout", "MCLayoutT.cfg" if ctx.thorough else "MCLayout.cfg")


def sessions(ctx, focus, num, ops, size=200):
    return ctx.generate("GenLayout", num, depth=ops * 8 + 20,
                        env={"VF_FOCUS": focus, "VF_OPS": ops, "VF_SIZE": size})


def run(ctx, binary, cases, label):
    ctx.conform("TraceLayout", cases, lambda c: ctx.replay(binary, c), label=label)


def c01(ctx):
    model(ctx)
    b = build(ctx, "TILE")
    lays = all_layouts(ctx, 4, 6 if not ctx.thorough else 8, 24 if not ctx.thorough else 48)
    cases = []
    for k, l in enumerate(lays):
        cases.append({"ty": TYPES[k % 5], "ops": [
            {"op": "new", "kind": "flat", "tile": l["tile"], "ext": l["ext"], "base": 100 * (k % 7) - 250},
            {"op": "tile", "h": 1}]})
    run(ctx, b, cases, "all small layouts")
    cases = [{"ty": t, "ops": [{"op": "new", "kind": "flat", "tile": tl, "ext": e, "base": 0},
                               {"op": "tile", "h": 1}]}
             for q, (tl, e) in enumerate(big_layouts()) for t in (TYPES if ctx.thorough else [TYPES[q % 5], "double"])]
    cases += [{"ty": "double", "ops": [{"op": "new", "kind": "flat", "tile": tl, "ext": e, "base": 0},
                                       {"op": "tile", "h": 1}]} for tl, e in huge_layouts()]
    run(ctx, b, cases, "large layouts")
    run(ctx, b, sessions(ctx, "tile", 60 if not ctx.thorough else 600, 6), "random sessions")


def far(ctx, iterate):
    """Arrays of more than 2^32 elements: address space only."""
    ctx.model_check("MCFar")
    b = ctx.build("far", [os.path.join(HARN, "far_h.cpp")], opt="-O2")
    rng = random.Random(ctx.seed)
    cases = []
    for tile, tiles in [([65536], [65537]), ([1 << 30], [6]), ([3], [1500000001]), ([40000, 30000], [3, 2]), ([3, 5], [20000, 16000]),
                        ([65536, 1], [2, 40000]), ([1, 65537], [65539, 2]), ([1000, 1700, 900], [2, 1, 2]), ([2, 2, 2], [900, 800, 900]),
                        ([300, 1, 200, 500], [2, 40, 2, 3]), ([1290, 1290, 1290], [1, 1, 3]), ([46341, 46341], [2, 1])]:
        # (extents as tile extents times counts: numbers stay below 2^31)
        inner = lambda: [rng.choice([0, x - 1, rng.randrange(x)]) for x in tile]
        last = [x - 1 for x in tile]
        c = {"tile": tile, "tiles": tiles, "mode": rng.randrange(3)}
        nt = 1
        for x in tiles:
            nt *= x
        if iterate:
            if nt > 200:
                continue
            c["all"] = [[0] * len(tile), last, inner()]
        else:
            pick = [[0] * len(tile), [x - 1 for x in tiles]] + [[rng.randrange(x) for x in tiles] for _ in range(10)]
            c["views"] = [{"t": t, "c": [last, inner(), inner(), last, [0] * len(tile), inner(), inner()]} for t in pick]
        cases.append(c)
    ctx.conform("TraceFar", cases, lambda c: ctx.replay(b, c), label="more than 2^32 elements")


def c02(ctx):
    model(ctx)
    b = build(ctx, "VIEW")
    lays = all_layouts(ctx, 4, 4 if not ctx.thorough else 6, 12 if not ctx.thorough else 24)
    cases = []
    for k, l in enumerate(lays):
        ops = [{"op": "new", "kind": "tiled", "tile": l["tile"], "ext": l["ext"], "base": 100}]
        v = 0
        for t in l["tiles"]:
            ops.append({"op": "bind", "h": 1, "t": t})
            v += 1
            for q, c in enumerate(l["inner"]):
                ops.append({"op": "read", "v": v, "c": c, "mode": (q + k) % 3})
            c = l["inner"][(k + v) % len(l["inner"])]
            ops.append({"op": "write", "v": v, "c": c, "mode": (v + k) % 3, "x": 5000 + v})
        cases.append({"ty": TYPES[k % 5], "ops": ops})
    run(ctx, b, cases, "all tiles of all small layouts")
    rng = random.Random(ctx.seed)
    cases = []
    for q, (tl, e) in enumerate(big_layouts() + huge_layouts()):
        ops = [{"op": "new", "kind": "tiled", "tile": tl, "ext": e, "base": 0}]
        nt = [a // b2 for a, b2 in zip(e, tl)]
        for v in range(1, 13):
            ops.append({"op": "bind", "h": 1, "t": [rng.randrange(x) for x in nt]})
            for m in range(3):
                ops.append({"op": "read", "v": v, "c": [rng.randrange(x) for x in tl], "mode": m})
            if v in (5, 12):
                ops.append({"op": "write", "v": v, "c": [rng.randrange(x) for x in tl], "mode": v % 3, "x": 9000 + v})
        cases.append({"ty": TYPES[q % 5], "ops": ops})
    run(ctx, b, cases, "large layouts")
    far(ctx, False)
    run(ctx, b, sessions(ctx, "view", 150 if not ctx.thorough else 1500, 14, 80), "random sessions")


def c03(ctx):
    model(ctx)
    b = build(ctx, "ITER")
    lays = all_layouts(ctx, 4, 6 if not ctx.thorough else 8, 20 if not ctx.thorough else 40)
    cases = []
    for k, l in enumerate(lays):
        n = len(l["tiles"])
        cases.append({"ty": TYPES[k % 5], "ops": [
            {"op": "new", "kind": "tiled", "tile": l["tile"], "ext": l["ext"], "base": 100},
            {"op": "iter", "h": 1, "k": k % (n + 1), "o": k % len(l["inner"]), "x": 7777},
            {"op": "iter", "h": 1, "k": n, "o": 0, "x": 0}]})
    run(ctx, b, cases, "all small layouts")
    cases = [{"ty": TYPES[q % 5], "ops": [{"op": "new", "kind": "tiled", "tile": tl, "ext": e, "base": 0},
                                        {"op": "iter", "h": 1, "k": 3, "o": 0, "x": 77777}]}
             for q, (tl, e) in enumerate(big_layouts())]
    cases += [{"ty": "double", "ops": [{"op": "new", "kind": "tiled", "tile": tl, "ext": e, "base": 0},
                                       {"op": "iter", "h": 1, "k": 1, "o": 0, "x": 77777}]}
              for tl, e in [([50, 100], [300, 300]), ([70], [70000]), ([2, 100], [2, 33000]), ([100, 3], [33000, 3])]]
    run(ctx, b, cases, "large layouts")
    far(ctx, True)
    run(ctx, b, sessions(ctx, "iter", 80 if not ctx.thorough else 800, 6, 100), "random sessions")


def c04(ctx):
    model(ctx)
    b = build(ctx, "TILE", "UNTILE")
    lays = all_layouts(ctx, 4, 6 if not ctx.thorough else 8, 24 if not ctx.thorough else 48)
    cases = []
    for k, l in enumerate(lays):
        cases.append({"ty": TYPES[k % 5], "ops": [
            {"op": "new", "kind": "tiled", "tile": l["tile"], "ext": l["ext"], "base": 100},
            {"op": "untile", "h": 1}, {"op": "tile", "h": 2}, {"op": "untile", "h": 3}]})
    run(ctx, b, cases, "all small layouts")
    cases = [{"ty": t, "ops": [{"op": "new", "kind": "tiled", "tile": tl, "ext": e, "base": 0},
                               {"op": "untile", "h": 1}]}
             for q, (tl, e) in enumerate(big_layouts()) for t in (TYPES if ctx.thorough else [TYPES[q % 5], "double"])]
    cases += [{"ty": "double", "ops": [{"op": "new", "kind": "tiled", "tile": tl, "ext": e, "base": 0},
                                       {"op": "untile", "h": 1}]} for tl, e in huge_layouts()]
    run(ctx, b, cases, "large layouts")
    run(ctx, b, sessions(ctx, "untile", 60 if not ctx.thorough else 600, 8), "random sessions")


TABLE = {"C01": c01, "C02": c02, "C03": c03, "C04": c04}
