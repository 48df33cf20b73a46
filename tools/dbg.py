import sys, json, importlib
sys.path.insert(0, "/verif")
from pydv.verify import *
m = importlib.import_module("contracts." + sys.argv[1])
pat = next((a for a in sys.argv[2:] if not a.startswith("-") and a != (sys.argv[sys.argv.index("-r")+1] if "-r" in sys.argv else None)), "")
dbg = "-d" in sys.argv
for s in m.SCENARIOS:
  if pat and pat not in s.name: continue
  r = run_scenario(s, root="/repo" if "-r" not in sys.argv else sys.argv[sys.argv.index("-r") + 1], debug=dbg)
  print("==", r["name"], r["status"], r["detail"], "paths", r["paths"], f"{r['wall_s']:.1f}s solver {r['solver_s']:.1f}s q {r['queries']}")
  for n, d in r["obligations"].items():
    print("  ", "OK " if "failed" not in d else "FAIL", n, d["proved"], "/", d["n"], d["by"], "" if "failed" not in d else (d["failed"]["kind"], d["failed"]["detail"][:300] if "-v" in sys.argv else ""))
  if "-l" in sys.argv:
    for l in r["loops"]: print("   loop", l)
