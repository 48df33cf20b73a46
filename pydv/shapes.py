"""Common shapes of loops over a symbolic collection, as the comprehension (any, next, min) that means the same.

  collect   for t in I: [if g: continue]* ... x.append(e) | x.add(e) | x[k] = e        x.extend([e for t in I if ..])
  flag      for t in I: ... if g: f = constant                                          if any(g for t in I): f = constant
  find      for t in I: ... if g: S; break | return e | raise e                         t = next((t for t in I if g), none); S
  smallest  for t in I: ... if [best is None or] c < bc: best, bc = .., c               t = min(I, key=c); body once       (> is max)
Only loops whose guards neither wait nor read what is collected; the loop's own names are forgotten afterwards."""
import ast, copy

class No(Exception): pass
PURE = (ast.Name, ast.Attribute, ast.Subscript, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.Tuple, ast.Load, ast.cmpop, ast.boolop, ast.unaryop, ast.operator, ast.expr_context, ast.IfExp)
def names(n): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
def has(n, *k): return any(isinstance(x, k) for x in ast.walk(n))
def simple(e):
  for x in ast.walk(e):
    if isinstance(x, ast.Call):
      if not (isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "items", "keys", "values") or isinstance(x.func, ast.Name) and x.func.id in ("len", "float", "int", "isinstance", "abs")) or x.keywords: return False
    elif not isinstance(x, PURE): return False
  return True
class Sub(ast.NodeTransformer):
  def __init__(self, m): self.m = m
  def visit_Name(self, n): return copy.deepcopy(self.m[n.id]) if isinstance(n.ctx, ast.Load) and n.id in self.m else n
def sub(n, m): return Sub(m).visit(copy.deepcopy(n)) if m else n
def place(e):
  """where things are collected: a local name, or a field of one"""
  if isinstance(e, ast.Name): return e.id
  if isinstance(e, ast.Attribute) and place(e.value): return place(e.value) + "." + e.attr
  return None
def negate(e): return e.operand if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) else ast.UnaryOp(ast.Not(), e)

class Shape:
  def __init__(self, kind, gens, **k): self.kind, self.gens, self.k = kind, gens, k
def exits(stmts):
  """statements ended by an unconditional break, return or raise, with no other way to go on with the loop"""
  if not stmts or not isinstance(stmts[-1], (ast.Break, ast.Return, ast.Raise)): return False
  for s in stmts[:-1]:
    if has(s, ast.Break, ast.Continue): return False
  return True
def parse(stmts, guards, gens, m, temps):
  for i, st in enumerate(stmts):
    last = i == len(stmts) - 1
    if isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant): continue
    if exits(stmts[i:]) and not (isinstance(st, ast.If) and len(st.body) == 1 and isinstance(st.body[0], ast.Continue)):
      if not guards or len(gens): raise No
      return Shape("find", None, guards=guards, body=temps + stmts[i:])
    if isinstance(st, ast.If) and not st.orelse:
      t = sub(st.test, m)
      if len(st.body) == 1 and isinstance(st.body[0], ast.Continue) and not last: guards.append(negate(t)); continue
      if not last: raise No
      r = smallest(st, t, m)
      if r is not None:
        if gens: raise No
        return Shape("smallest", None, guards=guards, key=r[0], body=temps + [st], keeps=r[1], least=r[2])
      guards.append(t); return parse(st.body, guards, gens, m, temps)
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and not last and simple(st.value) and st.targets[0].id not in m:
      temps.append(st); m[st.targets[0].id] = sub(st.value, m); continue
    if not last: raise No
    if isinstance(st, ast.For) and not st.orelse:
      gens.append((st.target, sub(st.iter, m), []))
      return parse(st.body, gens[-1][2], gens, m, temps)
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and place(st.value.func.value) and st.value.func.attr in ("append", "add") and len(st.value.args) == 1 and not st.value.keywords:
      return Shape("collect", None, x=place(st.value.func.value), how=st.value.func.attr, at=st.value.func.value, elt=sub(st.value.args[0], m))
    if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and isinstance(st.target, ast.Name) and isinstance(st.value, ast.List) and len(st.value.elts) == 1:
      return Shape("collect", None, x=st.target.id, at=load(st.target), how="append", elt=sub(st.value.elts[0], m))
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) and place(st.targets[0].value):
      return Shape("collect", None, x=place(st.targets[0].value), at=st.targets[0].value, how="item", elt=sub(st.value, m), key=sub(st.targets[0].slice, m))
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Constant): return Shape("flag", None, x=st.targets[0].id, body=[st])
    raise No
  raise No
def smallest(st, t, m):
  """if [best is None or] c < bc: best = ..; bc = c"""
  cmps = t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or) else [t]
  if len(cmps) > 2 or len(cmps) == 2 and not (isinstance(cmps[0], ast.Compare) and isinstance(cmps[0].ops[0], ast.Is) and isinstance(cmps[0].left, ast.Name)): return None
  c = cmps[-1]
  if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Lt, ast.Gt))): return None
  lo, hi = (c.left, c.comparators[0]) if isinstance(c.ops[0], ast.Lt) else (c.comparators[0], c.left)
  sets = {}
  for x in st.body:
    if not isinstance(x, ast.Assign) or len(x.targets) != 1: return None
    ts, vs = ([x.targets[0]], [x.value]) if isinstance(x.targets[0], ast.Name) else (x.targets[0].elts, x.value.elts) if isinstance(x.targets[0], ast.Tuple) and isinstance(x.value, ast.Tuple) else (None, None)
    if ts is None or len(ts) != len(vs) or not all(isinstance(y, ast.Name) for y in ts): return None
    for y, v in zip(ts, vs): sets[y.id] = sub(v, m)
  keeps = lambda a, b: isinstance(b, ast.Name) and b.id in sets and ast.dump(sets[b.id]) == ast.dump(a)
  if keeps(lo, hi): a, least = lo, True
  elif keeps(hi, lo): a, least = hi, False
  else: return None
  if len(cmps) == 2 and cmps[0].left.id not in sets: return None
  if any(names(v) & set(sets) for v in sets.values()) or not simple(a): return None
  return a, set(sets), least

def shape_of(s):
  """the shape of a for statement, or None"""
  try:
    own = names(s.target)
    if not all(isinstance(x, (ast.Name, ast.Tuple, ast.Store, ast.Load)) for x in ast.walk(s.target)): return None
    guards, gens, m, temps = [], [], {}, []
    r = parse(s.body, guards, gens, m, temps)
  except No: return None
  all_gens = [(s.target, s.iter, guards)] + gens
  exprs = [g for t, i, gs in all_gens for g in gs] + [i for t, i, gs in gens] + [r.k[k] for k in ("elt", "key") if r.k.get(k) is not None]
  if any(has(e, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr) for e in exprs): return None
  for t, i, gs in gens: own |= names(t)
  r.own = own | set(m); r.gens = all_gens
  if s.orelse and r.kind != "find": return None
  if r.kind == "collect" and "." in r.k["x"]:
    # kept in a field: nothing in the loop may fail half way or reach that field
    if any(not simple(e) or has(e, ast.Subscript, ast.BinOp, ast.Call) for e in exprs) or gens: return None
    if names(r.k["at"]) & r.own or any(isinstance(x, ast.Attribute) and x.attr == r.k["at"].attr for e in exprs for x in ast.walk(e)): return None
  if r.kind == "collect" and (r.k["x"] in r.own or any(r.k["x"] in names(e) for e in exprs)): return None
  if r.kind == "flag" and (r.k["x"] in r.own or not any(gs for _, _, gs in all_gens) or any(r.k["x"] in names(e) for e in exprs)): return None
  if r.kind == "smallest" and any(r.k["keeps"] & names(e) for e in exprs[:-1]): return None
  return r
def comp(r, it):
  """the generators of the comprehension; `it` names the collection of the first"""
  out = []
  for n, (t, i, gs) in enumerate(r.gens): out.append(ast.comprehension(copy.deepcopy(t), ast.Name(it, ast.Load()) if n == 0 else i, [copy.deepcopy(g) for g in gs], 0))
  return out
def parts(t, e):
  """the names a target binds, as parts of the element e"""
  if isinstance(t, ast.Name): return {t.id: e}
  return {k: v for i, x in enumerate(t.elts) for k, v in parts(x, ast.Subscript(e, ast.Constant(i), ast.Load())).items()}
def load(t):
  t = copy.deepcopy(t)
  for x in ast.walk(t):
    if hasattr(x, "ctx"): x.ctx = ast.Load()
  return t
