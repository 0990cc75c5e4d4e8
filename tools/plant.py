#!/usr/bin/env python3
"""plant.py FILE.py [id ...]: build /verif/seeded/<id>/ from the SEEDS list of FILE.py and confirm it in a scratch copy.
A seed: dict(id, prop, edits=[(module, old, new)], needs, breaks, demo=<python source>)."""
import json, os, re, shutil, subprocess, sys, tempfile, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
FINDER = '''import sys, types, os
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import warnings; warnings.filterwarnings("ignore")
try:
    import gpytoolbox_bindings
except Exception:
    import importlib.abc, importlib.machinery
    class _F(importlib.abc.MetaPathFinder, importlib.abc.Loader):
        def find_spec(self, n, p, t=None):
            return importlib.machinery.ModuleSpec(n, self) if n == "gpytoolbox_bindings" else None
        def exec_module(self, m):
            m._dcsdd_cpp_impl = None
    sys.meta_path.append(_F())
import numpy as np, gpytoolbox as gpy
'''
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="plant_")
    c = os.path.join(w, "repo")
    subprocess.run(["cp", "-a", "/repo", c], check=True)
    open(os.path.join(d, "demo.py"), "w").write(FINDER + s["demo"].strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\nexec env PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    demo = lambda: subprocess.run(["sh", os.path.join(d, "demo.sh")], cwd=c, capture_output=True, text=True, timeout=300)
    r0 = demo()
    for m, old, new in s["edits"]:
        f = os.path.join(c, "src/gpytoolbox", m + ".py")
        t = open(f).read()
        assert t.count(old) == 1, (s["id"], m, t.count(old))
        open(f, "w").write(t.replace(old, new))
    p = subprocess.run(["git", "-C", c, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(p)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r1 = demo()
    mods = "|".join(re.escape(m.split("/")[-1]) for m, _, _ in s["edits"])
    tests = s.get("tests") or [t for t in sorted(glob.glob(c + "/test/test_*.py")) if re.search(mods, open(t).read()) or re.search(mods, t)]
    bad = "-"
    if not s.get("notest"):
        rt = subprocess.run(["bash", "/tmp/t/rt_at.sh", c] + [os.path.relpath(t, c) for t in tests], capture_output=True, text=True)
        bad = rt.stdout[-300:]
        fails = set(re.findall(r"(?:FAILED|ERROR) \S*?(test_\w+)\.py::(\w+)::(\w+)", rt.stdout))
        hit = [f for f in fails if 'test.%s.%s::%s' % f in stable]
        bad = f"{len(tests)} files, stable failures: {hit} {rt.stdout.strip().splitlines()[-1:]}"
    env = dict(os.environ, VERIF_REPO=c)
    rc = subprocess.run([sys.executable, os.path.join(VERIF, "harness/check.py"), s["prop"]], env=env, capture_output=True, text=True)
    ok = r0.returncode == 0 and r1.returncode != 0
    print(("OK  " if ok else "DEMO BAD ") + s["id"], s["prop"], "clean", r0.returncode, "patched", r1.returncode, "| tests:", bad, "| check rc", rc.returncode, rc.stdout.strip().splitlines()[:1], flush=True)
    if not ok:
        print(r0.stdout[-500:], r0.stderr[-800:], r1.stdout[-300:], r1.stderr[-300:])
    shutil.rmtree(w)
