"""Runs scenarios: builds symbolic inputs, executes the real functions symbolically, discharges the obligations."""
import time, traceback, os, sys, json, multiprocessing as mp
import z3
from .core import *
from .interp import Interp
from .src import Loader
from . import models as M

class Scn:
  """one verification scenario = one function (or handler) against its contract"""
  def __init__(self, name, fn, functions, timeout=8000, expect=(), paths=4000, bounded=None):
    self.name, self.fn, self.functions, self.timeout, self.expect, self.paths, self.bounded = name, fn, functions, timeout, expect, paths, bounded

def run_scenario(scn, root="/repo", timeout_scale=1.0, debug=False):
  """loop candidates are first checked with a small effort; only if an obligation fails with what remains, with the full one"""
  r = run_once(scn, root, timeout_scale, debug, False)
  if r["status"] == "ok" and r["skipped"] and any("failed" in d for d in r["obligations"].values()) and r["wall_s"] < 120:
    r2 = run_once(scn, root, timeout_scale, debug, True)
    if r2["status"] == "ok": r2["wall_s"] += r["wall_s"]; r2["solver_s"] += r["solver_s"]; r2["queries"] += r["queries"]; return r2
  return r

def run_once(scn, root, timeout_scale, debug, full):
  t0 = time.time()
  r = {"name": scn.name, "status": "ok", "obligations": {}, "functions": [], "assumptions": [], "paths": 0, "detail": "", "loops": []}
  solver = Solver(timeout_ms=int(scn.timeout * timeout_scale))
  itp = Interp(Loader(root), solver)
  itp.debug = debug
  itp.full_candidates = full
  try:
    outs = itp.explore(lambda: scn.fn(itp), max_paths=scn.paths)
  except Unsupported as e:
    r["status"], r["detail"] = "unsupported", str(e)
    if debug: traceback.print_exc()
    outs = []
  except RecursionError as e:
    r["status"], r["detail"] = "unsupported", "recursion"
    outs = []
  except Exception as e:
    r["status"], r["detail"] = "unsupported", "engine: " + "".join(traceback.format_exception(e))[-1500:]
    if debug: traceback.print_exc()
    outs = []
  r["paths"] = len(outs)
  r["loops"] = [list(map(str, x)) for x in itp.loops_cut]
  if r["status"] == "ok":
    for o in outs:
      if o.kind == "raise":
        r["obligations"]["no unexpected exception"] = {"n": 1, "proved": 0, "by": {}, "failed": {"kind": "raise", "detail": repr(o.value) + " " + repr(getattr(o.value, "args", ""))[:200]}}
    if not outs: r["status"], r["detail"] = "unsupported", "no path reaches the end (contradictory assumptions)"
  if r["status"] == "ok":
    for name, fs, goal in itp.obligations:
      d = r["obligations"].setdefault(name, {"n": 0, "proved": 0, "by": {}})
      d["n"] += 1
      if "failed" in d: continue
      res, by, model = solver.prove(fs, goal)
      if res == "proved":
        d["proved"] += 1; d["by"][by] = d["by"].get(by, 0) + 1
      else:
        d["failed"] = {"kind": res, "detail": (by if res == "unknown" else model) or "", "goal": str(goal)[:1500]}
        if debug:
          print("FAILED", name, res)
          sv = z3.Solver()
          for f in list(fs) + [z3.Not(goal)]: sv.add(f)
          open(f"/tmp/dump_{len(r['obligations'])}.smt2", "w").write("(set-logic ALL)\n" + sv.to_smt2())
          print(z3.simplify(goal))
          for f in fs: print("   ", z3.simplify(f))
          if model is not None: print(model)
    # vacuity probe: some path must not be contradictory
    ok = False
    for o in outs[:12]:
      rr, _ = solver._run(o.st.formulas(), 1500, mbqi=False)
      if rr != z3.unsat: ok = True; break
    if not ok: r["status"], r["detail"] = "unsupported", "assumptions are contradictory"
    for e in scn.expect:
      if e not in r["obligations"]: r["status"], r["detail"] = "unsupported", f"obligation never reached: {e}"
    if not r["obligations"]: r["status"], r["detail"] = "unsupported", "no obligations"
  r["skipped"] = itp.skipped_candidates
  r["functions"] = sorted(itp.fn_used)
  r["assumptions"] = sorted(itp.assumptions)
  r["solver_s"] = solver.stats.solver_s; r["queries"] = solver.stats.queries
  r["wall_s"] = time.time() - t0
  return r

def _worker(prop_mod, idx, root, scale, q):
  import importlib
  try:
    m = importlib.import_module(prop_mod)
    q.put(run_scenario(m.SCENARIOS[idx], root, scale))
  except BaseException as e:
    q.put({"name": str(idx), "status": "unsupported", "detail": "".join(traceback.format_exception(e))[-1500:], "obligations": {}, "functions": [], "assumptions": [], "paths": 0, "solver_s": 0, "queries": 0, "wall_s": 0, "loops": []})

def run_all(prop_mod, root="/repo", scale=1.0, jobs=8, limit=420):
  import importlib
  m = importlib.import_module(prop_mod)
  ctx = mp.get_context("fork")
  res, todo, running = {}, list(range(len(m.SCENARIOS))), {}
  while todo or running:
    while todo and len(running) < jobs:
      i = todo.pop(0)
      q = ctx.Queue()
      p = ctx.Process(target=_worker, args=(prop_mod, i, root, scale, q))
      p.start(); running[i] = (p, q, time.time())
    time.sleep(0.02)
    for i, (p, q, t) in list(running.items()):
      r = None
      try: r = q.get_nowait()
      except Exception: pass
      if r is None and not p.is_alive():
        try: r = q.get(timeout=1)
        except Exception: r = dead(m.SCENARIOS[i], "worker died")
      if r is None and time.time() - t > limit:
        p.kill(); r = dead(m.SCENARIOS[i], f"time limit of {limit} s")
      if r is not None:
        p.join(5)
        if p.is_alive(): p.kill()
        res[i] = r; del running[i]
  return [res[i] for i in sorted(res)]
def dead(s, why): return {"name": s.name, "status": "unsupported", "detail": why, "obligations": {}, "functions": [], "assumptions": [], "paths": 0, "solver_s": 0, "queries": 0, "wall_s": 0, "loops": []}

# ---------------------------------------------------------------- helpers for contracts
def attempt(itp, fn):
  """('ok', value) or ('raise', exception value)"""
  try: return ("ok", fn())
  except PyRaise as e: return ("raise", e.value)

def exc_is(itp, val, py): return isinstance(val, ExcV) and issubclass(val.py, py)

def forall(ty, body, pats=None, name="q"):
  x = z3.Const(f"{name}!q{len(name)}", sort(ty))
  return M.mk_forall([x], body(x), pats(x) if pats else ())
def sel(a, k): return z3.Select(a, k)
