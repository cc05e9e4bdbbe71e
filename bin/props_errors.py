"""C21 rejected requests and the texts of library exceptions."""
import os, random
from vf import *
import props_index


def c21(ctx):
    ctx.model_check("MCErrors")
    b = ctx.build("errors", [os.path.join(HARN, "errors_h.cpp")])
    run = lambda c: ctx.replay(b, c)
    cases = []
    for cls in ("memory", "matrix"):
        for n in list(range(0, 66)) + [127, 128, 255, 256, 1023, 5000]:
            for how in ("copy", "throw", "later", "base", "nested", "poly"):
                if n > 40 and how in ("base", "nested"):
                    continue
                cases.append({"ops": [{"op": "create", "cls": cls, "m": {"len": n, "seed": n + 1}}, {"op": "hold", "k": 1},
                                      {"op": "copy", "k": 1, "how": how}, {"op": "clobber", "n": n}, {"op": "held", "q": 1},
                                      {"op": "read", "k": 1, "base": False}, {"op": "destroy", "k": 1}, {"op": "clobber", "n": n},
                                      {"op": "read", "k": 2, "base": True}]})
    ctx.conform("TraceErrors", cases, run, label="texts of every length")
    g = ctx.generate("GenErrors", 4000 if ctx.thorough else 600, depth=40, env={"VF_OPS": 14})
    ctx.conform("TraceErrors", g, run, label="generated lives of exceptions")
    b2 = ctx.build("layout", [(os.path.join(HARN, "layout_h.cpp"), ["-DH_REJECT"])])
    g = ctx.generate("GenLayout", 600 if ctx.thorough else 150, depth=80, env={"VF_FOCUS": "reject", "VF_OPS": 9})
    ctx.conform("TraceLayout", g, lambda c: ctx.replay(b2, c), label="layouts of another dimensionality")
    props_index.refusals(ctx)


TABLE = {"C21": c21}
