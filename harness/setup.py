"""setup_cmd: compile the arithmetic override and run its self-test."""
import os, sys, tempfile, shutil
sys.argv = ["check.py", "setup"]
import importlib.util
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
spec = importlib.util.spec_from_file_location("check", os.path.join(here, "check.py"))
c = importlib.util.module_from_spec(spec)

spec.loader.exec_module(c)
c.build_override()
w = tempfile.mkdtemp(prefix="vs")
r = c.tlc("MC_BigRat", "MC_BigRat.cfg", w, "s", workers=4)
shutil.rmtree(w)
print("override self-test:", "ok" if r["ok"] else r["out"][-2000:])
sys.exit(0 if r["ok"] else 1)
