#!/usr/bin/env python3
"""tryseed.py ID [PROP...]: scratch worktree with the seeded change applied; runs
its demo on both trees and the named checks on the changed one (VF_REPO)."""
import os, subprocess, sys, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
d = os.path.join(V, "seeded", sid)
props = sys.argv[2:] or [json.load(open(d + "/meta.json"))["property"]]
w = tempfile.mkdtemp(prefix="seed_")
try:
    for name in ("a", "b"):
        subprocess.run("mkdir %s/%s && git -C /repo archive HEAD | tar x -C %s/%s" % (w, name, w, name), shell=True, check=True)
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w + "/b", check=True)
    for name in ("a", "b"):
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=w + "/" + name, capture_output=True, text=True)
        print("demo on", {"a": "unchanged", "b": "changed"}[name], "->", r.returncode, (r.stdout + r.stderr)[-300:].strip())
    for p in props:
        if p == "-": continue
        r = subprocess.run(["python3", V + "/bin/check.py", p], env=dict(os.environ, VF_REPO=w + "/b"), capture_output=True, text=True)
        print(p, "->", r.returncode, "\n".join(x[:300] for x in r.stdout.splitlines()[-2:]))
finally:
    shutil.rmtree(w)
