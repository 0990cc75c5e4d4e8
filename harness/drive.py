"""drive.py <module>:<function>  -- runs a driver; exit 3 if the package under test does not import, 4 if it raises
where a driver prepares inputs with it (a call no history records; on valid inputs, like the recorded ones)"""
import importlib, json, os, re, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
try:
    import gpytoolbox
    import gpytoolbox.copyleft
except BaseException as e:
    sys.stderr.write(f"{type(e).__name__}: {e}")
    sys.exit(3)
mod, fn = sys.argv[1].split(":")
gen = json.load(open(os.environ["VERIF_GEN"])) if os.environ.get("VERIF_GEN") else {}
rec = vlib.Recorder(os.environ["VERIF_TRACE"])
try:
    getattr(importlib.import_module(mod), fn)(rec, gen)
except Exception as e:
    src = os.path.join(os.path.realpath(vlib.REPO), "src") + os.sep
    if not any(os.path.realpath(f.filename).startswith(src) for f in traceback.extract_tb(e.__traceback__)):
        raise
    rec.close()
    traceback.print_exc()
    sys.exit(4)
rec.close()
kinds = {}
for ln in open(os.environ["VERIF_TRACE"]):
    k = re.sub(r"[\d.]+.*", "", json.loads(ln[:200].split(', "ev"')[0] + "}")["id"])
    kinds[k] = kinds.get(k, 0) + 1
json.dump({"calls": rec.calls, "kinds": kinds}, open(os.path.join(os.environ["VERIF_WORK"], "driver.json"), "w"))
