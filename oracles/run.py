import sys, os, json, importlib, time, traceback, tempfile, shutil, logging
here = os.path.dirname(os.path.abspath(__file__))
prop, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
budget = float(sys.argv[5]) if len(sys.argv) > 5 else (8 if tier == "quick" else 240)
repo = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, repo); sys.path.insert(0, here)
scratch = tempfile.mkdtemp(prefix="oracle_")
os.environ["DATA_DIR"] = scratch; os.environ["HOME"] = scratch; os.environ.setdefault("DEBUG_SER", "1")
os.chdir(scratch)
logging.disable(logging.CRITICAL)
sys.unraisablehook = lambda *a: None
import lib
o = lib.Oracle(prop, tier, seed, budget)
t = time.time()
try:
  try:
    m = importlib.import_module(prop.lower())
    m.run(o)
  except lib.Stop: pass
  except BaseException as e: o.errors.append("".join(traceback.format_exception(e))[-2000:])
finally:
  os.chdir("/"); shutil.rmtree(scratch, ignore_errors=True)
with open(out, "w") as fd:
  json.dump({"property": prop, "tier": tier, "seed": seed, "cases": o.cases, "distinct": len(o._distinct), "sections": o.sections, "violations": o.violations,
    "errors": o.errors, "samples": o.samples[:12], "rule": getattr(sys.modules.get(prop.lower()), "RULE", ""), "wall_s": time.time() - t}, fd)
os._exit(0)
