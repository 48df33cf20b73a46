RULE = "formulas: every pair of operators next to each other, and random trees, written with as few parentheses as the precedences allow and evaluated for random values, against a reference evaluation of the tree; the task: random numbers, rubbish and pauses on its inputs with formulas that fail for some values, against the values sent; a case is one formula with values or one message"
import math, operator
from lib import run_async
from tasklib import *
from streamtasks.system.tasks.calculator import *

tr = lambda f: 1.0 if f else 0.0
BIN = {"|": (1, lambda a, b: tr(a > .5 or b > .5)), "^": (2, lambda a, b: tr((a > .5) != (b > .5))), "&": (3, lambda a, b: tr(a > .5 and b > .5)),
  **{s: (4, lambda a, b, f=f: tr(f(a, b))) for s, f in {">": operator.gt, "<": operator.lt, ">=": operator.ge, "<=": operator.le, "==": operator.eq, "!=": operator.ne}.items()},
  "+": (5, operator.add), "-": (5, operator.sub), "*": (6, operator.mul), "/": (6, operator.truediv), "%": (6, operator.mod), "**": (7, operator.pow)}
UN = {"-": operator.neg, "+": operator.pos, "!": lambda a: tr(not a > .5)}
FUN = {**{n: (1, getattr(math, n)) for n in "sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh log log2 log10 exp sqrt floor ceil".split()}, "atan2": (2, math.atan2), "abs": (1, abs), "round": (1, round), "min": (3, min), "max": (2, max)}
def tree(rng, d):
  r = rng.random()
  if d == 0 or r < 0.12: return ("num", rng.choice(["0", "1", "2", "0.5", "3.25", "1e2", "0.75"])) if rng.random() < 0.5 else ("var", rng.choice(["x", "y", "z", "pi", "e", "lo_9"]))
  if r < 0.7: return ("bin", rng.choice(list(BIN)), tree(rng, d - 1), tree(rng, d - 1))
  if r < 0.82: return ("un", rng.choice(list(UN)), tree(rng, d - 1))
  if r < 0.92: return ("if", tree(rng, d - 1), tree(rng, d - 1), tree(rng, d - 1))
  n = rng.choice(list(FUN)); return ("fun", n, *[tree(rng, d - 1) for _ in range(FUN[n][0])])
def show(t, rng):
  """(text, level)"""
  sp = rng.choice(["", "", " "])
  def at(c, l):
    s, k = show(c, rng)
    return f"({s})" if k < l or rng.random() < 0.05 else s
  if t[0] in ("num", "var"): return t[1], 9
  if t[0] == "bin": l = BIN[t[1]][0]; return at(t[2], l) + sp + t[1] + sp + at(t[3], l + 1), l
  if t[0] == "un": return t[1] + sp + at(t[2], 8), 8
  if t[0] == "if": return at(t[1], 1) + sp + "?" + sp + at(t[2], 0) + sp + ":" + sp + at(t[3], 0), 0
  return t[1] + "(" + ("," + sp).join(at(c, 0) for c in t[2:]) + ")", 9
def value(t, env):
  if t[0] == "num": return float(t[1])
  if t[0] == "var": return {"pi": math.pi, "e": math.e, **env}[t[1]]
  if t[0] == "bin": return BIN[t[1]][1](value(t[2], env), value(t[3], env))
  if t[0] == "un": return UN[t[1]](value(t[2], env))
  v = [value(c, env) for c in t[(1 if t[0] == "if" else 2):]]
  if t[0] == "if": return v[1] if v[0] > .5 else v[2]
  return FUN[t[1]][1](*v)
def outcome(f):
  try:
    v = f()
    return "none" if isinstance(v, complex) else float(v)
  except Exception: return "none"
def close(a, b): return a == b or a != a and b != b if isinstance(a, str) or isinstance(b, str) or a != a or b != b else a == b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
def evaluate(text, env): return CalculatorEvalTransformer(CalculatorEvalContext(env)).transform(CalculatorConfig(formula=text, variable_tracks=[{"name": n, "in_topic": 1} for n in env], out_topic=1).formula_ast)
def number(rng): return rng.choice([0.0, 1.0, 0.5, -1.0, 2.0, 0.25, 0.75, rng.uniform(-5, 5), float(rng.randint(-9, 9)), 1e-3])
def env_(rng): return {n: number(rng) for n in ("x", "y", "z", "lo_9")}
def check(o, t):
  s, _ = show(t, o.rng); env = env_(o.rng)
  want, got = outcome(lambda: value(t, env)), outcome(lambda: evaluate(s, env))
  o.expect(close(got, want), "formula-" + (t[1] if t[0] in ("bin", "un", "fun") else t[0]), f"{s} is {got} instead of {want}", (s, env))
  o.case((s, env))
V = [("var", n) for n in ("x", "y", "z")]
def pairs(o):
  for a in BIN:
    for b in BIN:
      for t in (("bin", a, ("bin", b, V[0], V[1]), V[2]), ("bin", a, V[0], ("bin", b, V[1], V[2]))):
        for _ in range(2): check(o, t)
    for u in UN:
      for t in (("un", u, ("bin", a, V[0], V[1])), ("bin", a, ("un", u, V[0]), V[1]), ("bin", a, V[0], ("un", u, V[1]))): check(o, t)
    for t in (("if", ("bin", a, V[0], V[1]), V[2], V[0]), ("bin", a, ("if", *V), V[0]), ("if", V[0], ("bin", a, V[1], V[2]), ("bin", a, V[0], V[2]))): check(o, t)
def random_(o):
  for _ in o.loop(at_least=100): check(o, tree(o.rng, o.rng.randint(1, 5)))
async def task(o):
  rng = o.rng
  forms = [("x+y*z", lambda e: e["x"] + e["y"] * e["z"]), ("x/y", lambda e: e["x"] / e["y"]), ("sqrt(x)+z", lambda e: math.sqrt(e["x"]) + e["z"]), ("x>0.5^y>0.5?x:z", lambda e: e["x"] if (e["x"] > .5) != (e["y"] > .5) else e["z"]), ("min(x,y,z)", lambda e: min(e["x"], e["y"], e["z"]))]
  f, ref = rng.choice(forms); vs = ["x", "y", "z"]; dfl = {n: number(rng) for n in vs}; env = dict(dfl); hist = [f, dfl]
  cfg = CalculatorConfig(formula=f, variable_tracks=[{"name": n, "in_topic": 10 + i, "default_value": dfl[n]} for i, n in enumerate(vs)], out_topic=20, synchronized=False)
  async with bench(lambda c: CalculatorTask(c, cfg), [10, 11, 12], 20) as b:
    paused = [False] * 3
    for _ in range(rng.randint(3, 12)):
      i = rng.randrange(3); r = rng.random(); ts = rng.randint(0, 10**6)
      d = number(rng) if r < .6 else rng.choice([{"timestamp": ts}, {"value": 3}, "text", {"timestamp": ts, "value": "a"}]) if r < .75 else not paused[i]
      hist.append((vs[i], d))
      if isinstance(d, bool): paused[i] = d; env[vs[i]] = dfl[vs[i]]; want = []
      elif isinstance(d, float):
        env[vs[i]] = d; v = outcome(lambda: ref(env)); want = [] if v == "none" else [("data", {"timestamp": ts, "value": v})]; d = {"timestamp": ts, "value": d}
      else: want = []
      await b.feed(10 + i, d)
      got = b.take()
      ok = len(got) == len(want) and all(g[0] == w[0] and g[1].get("timestamp") == w[1]["timestamp"] and close(g[1].get("value"), w[1]["value"]) for g, w in zip(got, want))
      if not o.expect(not b.died, "died", "the task stopped", hist): return
      if not o.expect(ok, "output", f"sends {got} instead of {want}", hist): return
      o.case(hist[-1])
def tasks(o):
  for _ in o.loop(at_least=8): run_async(task(o), 60)
def run(o):
  o.part("pairs of operators", pairs, 0.2); o.part("random formulas", random_, 0.45); o.part("task", tasks, 0.35)
