"""Models of Python builtins, containers, strings, numbers and comprehensions."""
import ast, builtins as _b
import z3
from .core import *
from . import interp as I

EXT_CONST = {"math.inf": float("inf"), "math.pi": 3.141592653589793, "math.e": 2.718281828459045, "typing.TYPE_CHECKING": False}
import re as _re
for _f in ("I", "M", "S", "X", "A", "U", "IGNORECASE", "MULTILINE", "DOTALL", "ASCII", "UNICODE"):
  for _p in ("re.", "re.RegexFlag."): EXT_CONST[_p + _f] = int(getattr(_re, _f))
INF_F = float("inf")

def T(f): return z3.BoolVal(f) if isinstance(f, bool) else f

def mk_forall(vs, body, pats=()):
  """pats: a list of alternative patterns, each a list of terms (a multi-pattern)"""
  pp = []
  for p in pats:
    ts = p if isinstance(p, (list, tuple)) else [p]
    ts = [t for t in ts if not z3.is_var(t) and z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and t.num_args() and pattern_ok(t)]
    if not ts: continue
    joint = set()
    for t in ts: joint |= free_consts(t)
    if all(v.get_id() in joint for v in vs):
      pp.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
  try: return z3.ForAll(vs, body, patterns=pp) if pp else z3.ForAll(vs, body)
  except z3.Z3Exception: return z3.ForAll(vs, body)

BOOL_OPS = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR}
def pattern_ok(t):
  seen, stack = set(), [t]
  while stack:
    x = stack.pop()
    if x.get_id() in seen: continue
    seen.add(x.get_id())
    if z3.is_quantifier(x) or (z3.is_app(x) and x.decl().kind() in BOOL_OPS): return False
    if z3.is_app(x): stack.extend(x.children())
  return True

def free_consts(t):
  out, seen, stack = set(), set(), [t]
  while stack:
    x = stack.pop()
    i = x.get_id()
    if i in seen: continue
    seen.add(i)
    if z3.is_quantifier(x): stack.append(x.body()); continue
    if z3.is_app(x):
      if x.num_args() == 0: out.add(i)
      else: stack.extend(x.children())
  return out
def const_nodes(t):
  out, seen, stack = {}, set(), [t]
  while stack:
    x = stack.pop()
    i = x.get_id()
    if i in seen: continue
    seen.add(i)
    if z3.is_quantifier(x): stack.append(x.body()); continue
    if z3.is_app(x):
      if x.num_args() == 0:
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[i] = x
      else: stack.extend(x.children())
  return out
def selects_on(t, b):
  """Select(A, b) terms with A not containing b"""
  out, seen, stack = [], set(), [t]
  bi = b.get_id()
  while stack:
    x = stack.pop()
    i = x.get_id()
    if i in seen: continue
    seen.add(i)
    if z3.is_quantifier(x): continue
    if z3.is_app(x):
      if x.decl().kind() == z3.Z3_OP_SELECT and x.arg(1).eq(b) and bi not in free_consts(x.arg(0)) and not z3.is_app_of(x.arg(0), z3.Z3_OP_CONST_ARRAY): out.append(x)
      stack.extend(x.children())
  return out

# ------------------------------------------------------------------ containers: basics
def rec_mutable(ty):
  return ty.kind == "rec" and any(is_container(ft) or rec_mutable(ft) for _, ft in rec_fields(ty))

def elem_value(itp, loc, step, ty, t):
  """value stored in a container at path step"""
  if is_container(ty) or rec_mutable(ty):
    n = itp.norm(loc)
    if ty.kind == "list": itp.assume(l_len(ty, t) >= 0)
    if n.root[0] == "cell":
      c = itp.st.cells[n.root[1]]
      if isinstance(c, ContC) and c.frozen and is_container(ty): return itp.new_cont(ty.kind, ty, t, frozen=True)
    return itp.alias(LocRef(n.root, n.path + (step,)))
  return itp.value_of(t, ty)

def retype(itp, loc, ty):
  """give an untyped / concrete container a symbolic type"""
  n = itp.norm(loc)
  if n.path: raise Unsupported("retype of a nested container")
  c = itp.content(n)
  if isinstance(c, ContC) and c.ty is ty: return
  vals = []
  if isinstance(c, PyDictC): vals = [(("k", k), v) for k, v in c.d.items()]
  elif isinstance(c, PyListC): vals = [(("k", z3.IntVal(i)), v) for i, v in enumerate(c.items)]
  t = itp.cell_term(c, ty)
  itp.st.cells[n.root[1]] = ContC(ty.kind, ty, t)
  for (kind, k), v in vals:
    if isinstance(v, (LocRef, ObjRef)) and not (isinstance(v, ObjRef) and isinstance(itp.st.cells[v.addr], Sym)):
      kt = itp.to_term(k, ty.args[0]) if ty.kind == "map" else k
      itp.adopt(v, LocRef(n.root, (("k", kt),)))

def try_term(itp, v, ty):
  try: return itp.to_term(v, ty)
  except Unsupported: return None

def widen(itp, loc, ty, v, pos):
  """a value that does not fit the element type of an (all concrete so far) container"""
  raise Unsupported(f"{itp.type_of(v)} stored in {ty}")

def set_add(itp, loc, v):
  c = itp.content(loc)
  if isinstance(c, PyListC): raise Unsupported("add on list")
  if c.ty is None:
    ty = itp.type_of(v)
    if ty is None: raise Unsupported("untyped set element")
    c = ContC("set", SET(ty), empty_set(ty))
  t = itp.to_term(v, c.ty.args[0])
  itp.set_content(loc, ContC("set", c.ty, z3.Store(c.t, t, z3.BoolVal(True))))

def as_set(itp, v, want=None):
  """set term of any iterable value: (ty, term)"""
  v = itp.deref(v)
  if isinstance(v, Sym) and v.ty.kind == "union": v = itp.resolve(v)
  if isinstance(v, LocRef):
    c = itp.content(v)
    if isinstance(c, ContC):
      if c.ty is None: return (SET(want) if want is not None else None), (empty_set(want) if want is not None else None)
      if c.ty.kind == "set": return c.ty, c.t
      if c.ty.kind == "map": return SET(c.ty.args[0]), m_dom(c.ty, c.t)
  if isinstance(v, ViewV) and v.kind == "keys": return as_set(itp, v.loc, want)
  loc = build_set(itp, v, want)
  c = itp.content(loc)
  if c.ty is None: return (SET(want) if want is not None else None), (empty_set(want) if want is not None else None)
  return c.ty, c.t

def card(itp, ty, t):
  f = z3.Function("card_" + tname(ty), sort(ty), z3.IntSort())
  x = z3.Const("x!card", sort(ty.args[0]))
  n = f(t)
  w = itp.fresh_const("cardw", sort(ty.args[0])); w2 = itp.fresh_const("cardv", sort(ty.args[0]))
  itp.assume(n >= 0)
  itp.assume(mk_forall([x], z3.Implies(z3.Select(t, x), n >= 1), [z3.Select(t, x)]))
  itp.assume(z3.Implies(n >= 1, z3.Select(t, w)))
  itp.assume(z3.Implies(n == 1, mk_forall([x], z3.Implies(z3.Select(t, x), x == w), [z3.Select(t, x)])))
  itp.assume(z3.Implies(n >= 2, z3.And(z3.Select(t, w2), w2 != w)))
  return n

def set_nonempty(itp, ty, t):
  """fresh boolean equivalent to non-emptiness, with a witness"""
  ts = z3.simplify(t)
  if z3.is_app_of(ts, z3.Z3_OP_CONST_ARRAY) and z3.is_false(ts.arg(0)): return z3.BoolVal(False)
  if z3.is_app_of(ts, z3.Z3_OP_STORE) and z3.is_true(ts.arg(2)): return z3.BoolVal(True)
  b = itp.fresh_const("nonempty", z3.BoolSort())
  w = itp.fresh_const("elem", sort(ty.args[0]))
  x = z3.Const("x!ne", sort(ty.args[0]))
  itp.assume(z3.Implies(b, z3.Select(t, w)))
  itp.assume(z3.Implies(z3.Not(b), mk_forall([x], z3.Not(z3.Select(t, x)), [z3.Select(t, x)])))
  return b

def is_empty(itp, v):
  c = itp.content(v)
  if isinstance(c, PyListC): return len(c.items) == 0
  if isinstance(c, PyDictC): return len(c.d) == 0
  if c.ty is None: return True
  if c.ty.kind == "list": return itp.decide(l_len(c.ty, c.t) == 0)
  if c.ty.kind == "set": return not itp.decide(set_nonempty(itp, c.ty, c.t))
  if c.ty.kind == "map": return not itp.decide(set_nonempty(itp, SET(c.ty.args[0]), m_dom(c.ty, c.t)))
  if c.ty.kind == "rec": return False
  raise Unsupported("truth of container")

def length(itp, v):
  v = itp.resolve(v)
  if isinstance(v, (str, bytes, tuple, bytearray)): return len(v)
  if isinstance(v, Sym):
    if v.ty.kind in ("str", "bytes", "seq"): return Sym(z3.Length(v.t), INT)
    if v.ty.kind == "any":
      m = itp.any_methods.get((v.ty.args[0], "__len__"))
      if m: return m(itp, v, [], {})
  if isinstance(v, ViewV): return length(itp, v.loc)
  if isinstance(v, RangeV):
    n = list(range(v.lo, v.hi, v.step)) if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)) else None
    if n is not None: return len(n)
  if isinstance(v, ObjRef):
    if itp.class_member(itp.st.cells[v.addr].cls, "__len__"): return itp.call(itp.getattr(v, "__len__"))
    m = class_ext_method(itp, itp.st.cells[v.addr].cls, "__len__", v)
    if m is not None: return itp.call(m)
  if isinstance(v, Sym) and v.ty.kind == "ref": return itp.call(itp.getattr(v, "__len__"))
  if isinstance(v, LocRef):
    c = itp.content(v)
    if isinstance(c, PyListC): return len(c.items)
    if isinstance(c, PyDictC): return len(c.d)
    if c.ty is None: return 0
    if c.ty.kind == "list": return Sym(z3.simplify(l_len(c.ty, c.t)), INT)
    if c.ty.kind == "set": return Sym(card(itp, c.ty, c.t), INT)
    if c.ty.kind == "map": return Sym(card(itp, SET(c.ty.args[0]), m_dom(c.ty, c.t)), INT)
  raise Unsupported(f"len of {v!r}")

def cont_eq(itp, a, b):
  na, nb = itp.norm(a), itp.norm(b)
  if na.root == nb.root and na.path == nb.path: return True
  ca, cb = itp.content(a), itp.content(b)
  if isinstance(ca, ContC) and isinstance(cb, ContC):
    if ca.ty is None and cb.ty is None: return ca.kind == cb.kind
    if ca.ty is None: ca, cb, a, b = cb, ca, b, a
    if cb.ty is None:
      if ca.kind != cb.kind: return False
      return itp.disj([]) if not _emptyq(itp, a) else True
    if ca.ty is not cb.ty: raise Unsupported("container comparison across types")
    if ca.ty.kind == "set": return ca.t == cb.t
    if ca.ty.kind == "rec": return ca.t == cb.t
    return term_eq(itp, ca.ty, ca.t, cb.t)
  if isinstance(ca, (PyListC, PyDictC)) and isinstance(cb, (PyListC, PyDictC)):
    if type(ca) is not type(cb): return False
    if isinstance(ca, PyListC):
      if len(ca.items) != len(cb.items): return False
      return itp.conj([itp.eq(x, y) for x, y in zip(ca.items, cb.items)])
    if set(ca.d) != set(cb.d): return False
    return itp.conj([itp.eq(ca.d[k], cb.d[k]) for k in ca.d])
  sy, co = (ca, cb) if isinstance(ca, ContC) else (cb, ca)
  if sy.ty is None: return sy.kind == ("map" if isinstance(co, PyDictC) else "list") and not (co.d if isinstance(co, PyDictC) else co.items)
  return term_eq(itp, sy.ty, sy.t, itp.cell_term(co, sy.ty))
def _emptyq(itp, v): return is_empty(itp, v)

def term_eq(itp, ty, a, b):
  """python equality of two container terms (extensional over the valid part), as a fresh boolean"""
  if ty.kind in ("set",): return a == b
  r = itp.fresh_const("ceq", z3.BoolSort())
  if ty.kind == "list":
    i = z3.Int("i!eq"); w = itp.fresh_const("eqw", z3.IntSort())
    la, lb, aa, ab = l_len(ty, a), l_len(ty, b), l_arr(ty, a), l_arr(ty, b)
    itp.assume(z3.Implies(r, z3.And(la == lb, mk_forall([i], z3.Implies(z3.And(0 <= i, i < la), z3.Select(aa, i) == z3.Select(ab, i)), [z3.Select(aa, i), z3.Select(ab, i)]))))
    itp.assume(z3.Implies(z3.Not(r), z3.Or(la != lb, z3.And(0 <= w, w < la, z3.Select(aa, w) != z3.Select(ab, w)))))
    return r
  if ty.kind == "map":
    k = z3.Const("k!eq", sort(ty.args[0])); w = itp.fresh_const("eqw", sort(ty.args[0]))
    da, db, va, vb = m_dom(ty, a), m_dom(ty, b), m_val(ty, a), m_val(ty, b)
    itp.assume(z3.Implies(r, z3.And(da == db, mk_forall([k], z3.Implies(z3.Select(da, k), z3.Select(va, k) == z3.Select(vb, k)), [z3.Select(va, k), z3.Select(vb, k)]))))
    itp.assume(z3.Implies(z3.Not(r), z3.Or(da != db, z3.And(z3.Select(da, w), z3.Select(va, w) != z3.Select(vb, w)))))
    return r
  return a == b

def eq_dispatch(itp, a, b):
  a, b = itp.deref(a), itp.deref(b)
  if isinstance(a, ViewV): a = as_set_value(itp, a)
  if isinstance(b, ViewV): b = as_set_value(itp, b)
  if isinstance(a, ObjRef):
    m = itp.class_member(itp.st.cells[a.addr].cls, "__eq__")
    if m: return T_(itp, itp.call(itp.getattr(a, "__eq__"), [b]))
  return itp.eq(a, b)
def T_(itp, v):
  if isinstance(v, bool): return v
  if isinstance(v, Sym) and v.ty is BOOL: return v.t
  return itp.truth(v)
def as_set_value(itp, v):
  ty, t = as_set(itp, v)
  return itp.new_cont("set", ty, t)

def exists_in_list(itp, ty, t, x):
  el = ty.args[0]
  xt = try_term(itp, x, el)
  if xt is None: return False
  r = itp.fresh_const("inlist", z3.BoolSort()); w = itp.fresh_const("inw", z3.IntSort())
  i = z3.Int("i!in")
  n, a = l_len(ty, t), l_arr(ty, t)
  itp.assume(z3.Implies(r, z3.And(0 <= w, w < n, z3.Select(a, w) == xt)))
  itp.assume(z3.Implies(z3.Not(r), mk_forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(a, i) != xt), [z3.Select(a, i)])))
  return r

def contains(itp, c, x):
  c = itp.resolve(c)
  x = itp.deref(x)
  if isinstance(c, (tuple,)): return itp.disj([itp.eq(x, y) for y in c])
  if isinstance(c, (str,)) and isinstance(x, str): return x in c
  if isinstance(c, str) and isinstance(x, Sym) and x.ty is STR: return z3.Contains(z3.StringVal(c), x.t)
  if isinstance(c, Sym) and c.ty is STR: return z3.Contains(c.t, itp.to_term(itp.resolve(x), STR))
  if isinstance(c, (bytes,)) or (isinstance(c, Sym) and c.ty.kind in ("bytes", "seq")):
    ct = itp.to_term(c, BYTES) if isinstance(c, bytes) else c.t
    x = itp.resolve(x)
    if isinstance(x, (bytes,)) or (isinstance(x, Sym) and x.ty.kind in ("bytes", "seq")): return z3.Contains(ct, itp.to_term(x, BYTES) if not isinstance(x, Sym) else x.t)
    return z3.Contains(ct, z3.Unit(itp.to_term(x, INT)))
  if isinstance(c, ViewV):
    if c.kind == "keys": return contains(itp, c.loc, x)
    cc = itp.content(c.loc)
    if c.kind == "values" and isinstance(cc, PyDictC): return itp.disj([itp.eq(x, y) for y in cc.d.values()])
    if c.kind == "values" and isinstance(cc, ContC):
      if cc.ty is None: return False
      xt = try_term(itp, x, cc.ty.args[1])
      if xt is None: return False
      r = itp.fresh_const("inval", z3.BoolSort()); w = itp.fresh_const("inw", sort(cc.ty.args[0])); k = z3.Const("k!in", sort(cc.ty.args[0]))
      d, v = m_dom(cc.ty, cc.t), m_val(cc.ty, cc.t)
      itp.assume(z3.Implies(r, z3.And(z3.Select(d, w), z3.Select(v, w) == xt)))
      itp.assume(z3.Implies(z3.Not(r), mk_forall([k], z3.Implies(z3.Select(d, k), z3.Select(v, k) != xt), [z3.Select(d, k), z3.Select(v, k)])))
      return r
    raise Unsupported("in view")
  if isinstance(c, RangeV):
    if c.step == 1:
      xt = itp.to_term(itp.resolve(x), INT)
      return z3.And(itp.to_term(c.lo, INT) <= xt, xt < itp.to_term(c.hi, INT))
  if isinstance(c, LocRef):
    cc = itp.content(c)
    if isinstance(cc, PyListC): return itp.disj([itp.eq(x, y) for y in cc.items])
    if isinstance(cc, PyDictC):
      k = itp.key(x)
      return itp.disj([itp.eq(x, itp.unkey(y)) for y in cc.d])
    if cc.ty is None: return False
    if isinstance(x, Sym) and x.ty.kind == "union" and x.ty is not cc.ty.args[0] and cc.ty.args[0].kind != "union": x = itp.resolve(x)
    if cc.ty.kind == "list": return exists_in_list(itp, cc.ty, cc.t, x)
    xt = try_term(itp, x, cc.ty.args[0])
    if xt is None: return False
    if cc.ty.kind == "set": return z3.Select(cc.t, xt)
    if cc.ty.kind == "map": return z3.Select(m_dom(cc.ty, cc.t), xt)
  if isinstance(c, ObjRef):
    cls = itp.st.cells[c.addr].cls
    if itp.class_member(cls, "__contains__"): return T_(itp, itp.call(itp.getattr(c, "__contains__"), [x]))
    m = class_ext_method(itp, cls, "__contains__", c)
    if m is not None: return T_(itp, itp.call(m, [x]))
  if isinstance(c, Sym) and c.ty.kind == "ref": return T_(itp, itp.call(itp.getattr(c, "__contains__"), [x]))
  if isinstance(c, Sym) and c.ty.kind == "any":
    m = itp.any_methods.get((c.ty.args[0], "__contains__"))
    if m: return T_(itp, m(itp, c, [x], {}))
  if isinstance(c, ClassV) and itp.is_enum(c):
    return itp.disj([itp.eq(x, v) for n, v in itp.enum_members(c)])
  if isinstance(c, (GenV, IterV, I.GenCall)): return contains(itp, build_list(itp, c), x)
  raise Unsupported(f"in {c!r}")

def norm_index(itp, k, n):
  """index -> non-negative term, raising IndexError; n term or int"""
  k = itp.resolve(k)
  if isinstance(k, bool): k = int(k)
  if isinstance(k, int) and isinstance(n, int):
    if not -n <= k < n: itp.raise_py(IndexError)
    return k if k >= 0 else k + n
  kt = itp.to_term(k, INT); nt = z3.IntVal(n) if isinstance(n, int) else n
  if not (isinstance(k, int) and k >= 0):
    if itp.decide(kt < 0): kt = kt + nt
  if not itp.decide(z3.And(0 <= kt, kt < nt)): itp.raise_py(IndexError)
  return z3.simplify(kt)

def slice_bounds(itp, s, n):
  """clamped lo, hi terms"""
  nt = z3.IntVal(n) if isinstance(n, int) else n
  def clamp(x, d):
    if x is None: return d
    x = itp.resolve(x)
    t = itp.to_term(x, INT)
    if isinstance(x, int):
      if x >= 0: return z3.If(t > nt, nt, t)
      return z3.If(t + nt < 0, z3.IntVal(0), t + nt)
    return z3.If(t < 0, z3.If(t + nt < 0, z3.IntVal(0), t + nt), z3.If(t > nt, nt, t))
  lo, hi = clamp(s.lo, z3.IntVal(0)), clamp(s.hi, nt)
  return z3.simplify(lo), z3.simplify(hi)

def getitem(itp, o, k):
  o = itp.resolve(o)
  if isinstance(o, ObjRef):
    cls = itp.st.cells[o.addr].cls
    if itp.class_member(cls, "__getitem__"): return itp.call(itp.getattr(o, "__getitem__"), [k])
    m = class_ext_method(itp, cls, "__getitem__", o)
    if m is not None: return itp.call(m, [k])
  if isinstance(o, Sym) and o.ty.kind == "any":
    m = itp.any_methods.get((o.ty.args[0], "__getitem__"))
    if m: return m(itp, o, [k], {})
  if isinstance(o, Sym) and o.ty.kind == "ref": return itp.call(itp.getattr(o, "__getitem__"), [k])
  if isinstance(o, (tuple, str, bytes)) and isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
    return o[k.lo:k.hi:k.step]
  if isinstance(o, tuple):
    k = itp.resolve(k)
    if isinstance(k, int):
      if not -len(o) <= k < len(o): itp.raise_py(IndexError)
      return o[k]
    kt = norm_index(itp, k, len(o))
    for i in range(len(o) - 1):
      if itp.decide(kt == i): return o[i]
    return o[-1]
  if isinstance(o, str): o = Sym(z3.StringVal(o), STR) if not isinstance(itp.resolve(k), int) else o
  if isinstance(o, bytes): o = Sym(itp.to_term(o, BYTES), BYTES) if not isinstance(k, int) else o
  if isinstance(o, (str, bytes)):
    if not -len(o) <= k < len(o): itp.raise_py(IndexError)
    return o[k]
  if isinstance(o, Sym) and o.ty.kind in ("str", "bytes", "seq"):
    n = z3.Length(o.t)
    if isinstance(k, SliceV):
      if k.step is not None and k.step != 1: raise Unsupported("slice step")
      lo, hi = slice_bounds(itp, k, n)
      return Sym(z3.simplify(z3.SubSeq(o.t, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0)))) if o.ty.kind != "str" else z3.SubString(o.t, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0))), o.ty)
    i = norm_index(itp, k, n)
    if o.ty is STR: return Sym(z3.SubString(o.t, i, 1), STR)
    el = INT if o.ty is BYTES else o.ty.args[0]
    v = o.t[i]
    if o.ty is BYTES: itp.assume(z3.And(0 <= v, v < 256))
    return itp.value_of(v, el)
  if isinstance(o, LocRef):
    c = itp.content(o)
    if isinstance(c, PyListC):
      if isinstance(k, SliceV):
        if not all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)): raise Unsupported("symbolic slice of a concrete list")
        return itp.new_list(c.items[k.lo:k.hi:k.step])
      return getitem(itp, tuple(c.items), k)
    if isinstance(c, PyDictC):
      for kk in c.d:
        e = itp.eq(k, itp.unkey(kk))
        if e is True or (e is not False and itp.decide(e)): return c.d[kk]
      raise PyRaise(ExcV(KeyError, (k,)))
    if c.ty is None:
      raise PyRaise(ExcV(KeyError if c.kind == "map" else IndexError, (k,)))
    if c.ty.kind == "map":
      if isinstance(k, Sym) and k.ty.kind == "union" and c.ty.args[0].kind != "union": k = itp.resolve(k)
      kt = try_term(itp, k, c.ty.args[0])
      if kt is None or not itp.decide(z3.Select(m_dom(c.ty, c.t), kt)): raise PyRaise(ExcV(KeyError, (k,)))
      return elem_value(itp, o, ("k", kt), c.ty.args[1], z3.Select(m_val(c.ty, c.t), kt))
    if c.ty.kind == "list":
      n = l_len(c.ty, c.t)
      if isinstance(k, SliceV):
        if k.step is not None and k.step != 1: raise Unsupported("slice step")
        lo, hi = slice_bounds(itp, k, n)
        return list_slice(itp, c, lo, hi)
      i = norm_index(itp, k, n)
      i = z3.IntVal(i) if isinstance(i, int) else i
      return elem_value(itp, o, ("k", i), c.ty.args[0], z3.Select(l_arr(c.ty, c.t), i))
  if isinstance(o, I.TypeV) or isinstance(o, (ClassV, ExtV)): return o
  raise Unsupported(f"subscript of {o!r}")

def list_slice(itp, c, lo, hi):
  if z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0:
    return itp.new_cont("list", c.ty, mk(c.ty, z3.simplify(z3.If(hi > 0, hi, z3.IntVal(0))), l_arr(c.ty, c.t)))
  arr = itp.fresh_const("slice", z3.ArraySort(z3.IntSort(), sort(c.ty.args[0])))
  i = z3.Int("i!sl")
  src = l_arr(c.ty, c.t)
  itp.assume(mk_forall([i], z3.Select(arr, i) == z3.Select(src, i + lo), [z3.Select(arr, i)]))
  itp.assume(mk_forall([i], z3.Select(arr, i - lo) == z3.Select(src, i), [z3.Select(src, i)]))
  return itp.new_cont("list", c.ty, mk(c.ty, z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))), arr))

def setitem(itp, o, k, v):
  o = itp.resolve(o)
  if isinstance(o, ObjRef):
    m = class_ext_method(itp, itp.st.cells[o.addr].cls, "__setitem__", o) if not itp.class_member(itp.st.cells[o.addr].cls, "__setitem__") else None
    return itp.call(m or itp.getattr(o, "__setitem__"), [k, v])
  if isinstance(o, Sym) and o.ty.kind == "ref": return itp.call(itp.getattr(o, "__setitem__"), [k, v])
  if isinstance(o, Sym) and o.ty.kind == "any":
    m = itp.any_methods.get((o.ty.args[0], "__setitem__"))
    if m: return m(itp, o, [k, v], {})
  if not isinstance(o, LocRef): raise Unsupported(f"item assignment on {o!r}")
  c = itp.content(o)
  if isinstance(c, (PyDictC, ContC)):
    kd = itp.deref(k)
    if isinstance(kd, Sym) and kd.ty.kind == "union" and (isinstance(c, PyDictC) or c.ty is None or c.ty.kind == "map" and c.ty.args[0].kind != "union"): k = itp.resolve(kd)
  if isinstance(c, PyListC):
    if isinstance(k, SliceV): raise Unsupported("slice assignment")
    k = itp.resolve(k)
    if isinstance(k, int):
      i = norm_index(itp, k, len(c.items))
      items = list(c.items); items[i] = v
      return itp.set_content(o, PyListC(items))
    ty = itp.type_of(o)
    if ty is None: itp.raise_py(IndexError)
    retype(itp, o, LIST(UNION(ty.args[0], itp.type_of(v)))); c = itp.content(o)
  if isinstance(c, PyDictC):
    kc = itp.key(k)
    if kc is not None or k is None:
      if all(itp.key(x) is not None or x is None for x in c.d):
        if not isinstance(k, Sym):
          return itp.set_content(o, PyDictC({**c.d, kc: v}))
        return itp.set_content(o, PyDictC({**c.d, kc: v}))
    for kk in c.d:
      e = itp.eq(k, itp.unkey(kk))
      if e is True or (e is not False and itp.decide(e)): return itp.set_content(o, PyDictC({**c.d, kk: v}))
    kt, vt = [itp.type_of(x) for x in list(map(itp.unkey, c.d)) + [k]], [itp.type_of(x) for x in list(c.d.values()) + [v]]
    if any(x is None for x in vt):
      nn = [x for x in vt if x is not None]
      if not nn:
        raise Unsupported("untyped container as dict value")
      vt = nn
    retype(itp, o, MAP(UNION(*kt), UNION(*vt))); c = itp.content(o)
  if c.ty is None:
    vt = itp.type_of(v)
    if vt is None: raise Unsupported("untyped container as dict value")
    c = ContC("map", MAP(itp.type_of(k), vt), None)
    c = ContC("map", c.ty, itp.empty_term(c.ty))
  if c.ty.kind == "map":
    kt = itp.to_term(k, c.ty.args[0])
    vt = itp.to_term(v, c.ty.args[1])
    n = itp.norm(o)
    if is_container(c.ty.args[1]) or rec_mutable(c.ty.args[1]): itp.kill_aliases(n, kt)
    itp.set_content(o, ContC("map", c.ty, mk(c.ty, z3.Store(m_dom(c.ty, c.t), kt, z3.BoolVal(True)), z3.Store(m_val(c.ty, c.t), kt, vt))))
    if is_container(c.ty.args[1]) or rec_mutable(c.ty.args[1]): itp.adopt(v, LocRef(n.root, n.path + (("k", kt),)))
    return
  if c.ty.kind == "list":
    if isinstance(k, SliceV): raise Unsupported("slice assignment")
    i = norm_index(itp, k, l_len(c.ty, c.t))
    i = z3.IntVal(i) if isinstance(i, int) else i
    vt = itp.to_term(v, c.ty.args[0])
    n = itp.norm(o)
    if is_container(c.ty.args[0]) or rec_mutable(c.ty.args[0]): itp.kill_aliases(n, i)
    itp.set_content(o, ContC("list", c.ty, mk(c.ty, l_len(c.ty, c.t), z3.Store(l_arr(c.ty, c.t), i, vt))))
    return
  raise Unsupported("item assignment")

def delitem(itp, o, k):
  o = itp.resolve(o)
  if isinstance(o, ObjRef):
    m = class_ext_method(itp, itp.st.cells[o.addr].cls, "__delitem__", o) if not itp.class_member(itp.st.cells[o.addr].cls, "__delitem__") else None
    return itp.call(m or itp.getattr(o, "__delitem__"), [k])
  if isinstance(o, Sym) and o.ty.kind == "any":
    m = itp.any_methods.get((o.ty.args[0], "__delitem__"))
    if m: return m(itp, o, [k], {})
  if isinstance(o, Sym) and o.ty.kind == "ref": return itp.call(itp.getattr(o, "__delitem__"), [k])
  if isinstance(o, LocRef):
    c = itp.content(o)
    if isinstance(c, PyDictC) or c.kind == "map":
      call_method(itp, o, "pop", [k], {}); return
    if isinstance(c, PyListC) and not isinstance(k, SliceV):
      i = norm_index(itp, k, len(c.items))
      if isinstance(i, int): return itp.set_content(o, PyListC(c.items[:i] + c.items[i + 1:]))
    if isinstance(c, ContC) and c.kind == "list" and not isinstance(k, SliceV):
      call_method(itp, o, "pop", [k], {}); return
    if isinstance(c, ContC) and c.kind == "list" and isinstance(k, SliceV) and k.hi is None and k.step is None:
      lo, hi = slice_bounds(itp, k, l_len(c.ty, c.t))
      return itp.set_content(o, ContC("list", c.ty, mk(c.ty, lo, l_arr(c.ty, c.t))))
    if isinstance(c, ContC) and c.kind == "list" and isinstance(k, SliceV) and k.lo in (None, 0) and k.step is None:
      r = getitem(itp, o, SliceV(k.hi, None, None))
      return itp.set_content(o, itp.content(r))
  raise Unsupported("del item")

def dict_update(itp, d, src):
  src = itp.resolve(src)
  if isinstance(src, LocRef):
    c = itp.content(src)
    if isinstance(c, PyDictC):
      for k, v in c.d.items(): setitem(itp, d, itp.unkey(k), v)
      return
    if c.ty is None: return
    if c.ty.kind == "map":
      cd = itp.content(d)
      if isinstance(cd, PyDictC):
        if cd.d: retype(itp, d, c.ty)
        else: return itp.set_content(d, ContC("map", c.ty, c.t))
        cd = itp.content(d)
      if cd.ty is None: return itp.set_content(d, ContC("map", c.ty, c.t))
      if cd.ty is not c.ty: raise Unsupported("dict update across types")
      R = itp.fresh_const("upd", sort(c.ty))
      k = z3.Const("k!u", sort(c.ty.args[0]))
      d0, v0, d1, v1, d2, v2 = m_dom(cd.ty, cd.t), m_val(cd.ty, cd.t), m_dom(c.ty, c.t), m_val(c.ty, c.t), m_dom(c.ty, R), m_val(c.ty, R)
      itp.assume(mk_forall([k], z3.Select(d2, k) == z3.Or(z3.Select(d0, k), z3.Select(d1, k)), [z3.Select(d2, k)]))
      itp.assume(mk_forall([k], z3.Select(v2, k) == z3.If(z3.Select(d1, k), z3.Select(v1, k), z3.Select(v0, k)), [z3.Select(v2, k)]))
      itp.kill_aliases(itp.norm(d))
      return itp.set_content(d, ContC("map", c.ty, R))
    if c.ty.kind == "rec":
      for f, ft in rec_fields(c.ty): setitem(itp, d, f, itp.getattr(src, f))
      return
  if isinstance(src, ObjRef) or isinstance(src, Sym): raise Unsupported("dict update from object")
  items = concrete_items(itp, src)
  for kv in items:
    k, v = unpack(itp, kv, 2, None)
    setitem(itp, d, k, v)

# ------------------------------------------------------------------ iteration
class SymIter:
  """b: binder const; guard: membership condition of b; value: python value in terms of b; ordered list -> b is an index"""
  def __init__(self, b, bty, guard, value, kind, pats, exc=None, size=None, loc=None):
    self.b, self.bty, self.guard, self.value, self.kind, self.pats, self.exc, self.size, self.loc = b, bty, guard, value, kind, pats, exc, size, loc

def enumerated(itp, s):
  """a set taken in some order: the positions of an enumeration of it"""
  if not (isinstance(s, SymIter) and s.kind == "set" and s.size is None and not getattr(s, "filtered", False)): return s
  ty, term = seg_term(itp, s)
  n, arr = enum_list(itp, ty, s.guard, s.b, term, ty, s.pats)
  if isinstance(s.loc, LocRef):
    c = itp.content(s.loc)
    if isinstance(c, ContC) and c.ty is not None and c.ty.kind == "set": itp.assume(n == card(itp, c.ty, c.t))
  b = itp.fresh_const("zi", z3.IntSort())
  return SymIter(b, INT, z3.And(0 <= b, b < n), itp.value_of(z3.Select(arr, b), ty), "list", [z3.Select(arr, b)], size=n)

def segments(itp, v, positional=False):
  """iterable value -> list of python lists (concrete) and SymIter (symbolic)"""
  v = itp.resolve(v)
  if isinstance(v, (tuple, list)): return [list(v)]
  if isinstance(v, str): return [list(v)]
  if isinstance(v, (bytes, bytearray)): return [list(v)]
  if isinstance(v, RangeV):
    if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)):
      n = len(range(v.lo, v.hi, v.step))
      if n <= 24: return [list(range(v.lo, v.hi, v.step))]
    lo, hi = itp.to_term(v.lo, INT), itp.to_term(v.hi, INT)
    if v.step == 1:
      b = itp.fresh_const("ri", z3.IntSort())
      return [SymIter(b, INT, z3.And(0 <= b, b < hi - lo), Sym(z3.simplify(lo + b), INT), "list", [], size=z3.If(hi > lo, hi - lo, z3.IntVal(0)))]
    st = itp.to_term(v.step, INT)
    if isinstance(v.step, int) and v.step > 1 or itp.entails(st >= 1):
      b = itp.fresh_const("ri", z3.IntSort())
      n = itp.fresh_const("rn", z3.IntSort())
      itp.assume(z3.And(n >= 0, z3.Implies(hi <= lo, n == 0), z3.Implies(hi > lo, z3.And(n >= 1, lo + (n - 1) * st < hi, lo + n * st >= hi))))
      return [SymIter(b, INT, z3.And(0 <= b, b < n), Sym(lo + b * st, INT), "list", [], size=n)]
    raise Unsupported("range step")
  if isinstance(v, ViewV): return view_segments(itp, v)
  if isinstance(v, LocRef):
    c = itp.content(v)
    if isinstance(c, PyListC): return [list(c.items)]
    if isinstance(c, PyDictC): return [[itp.unkey(k) for k in c.d]]
    if c.ty is None: return [[]]
    if c.ty.kind == "set":
      lits = set_literal(c.t)
      if lits is not None and len(lits) <= 1: return [[itp.value_of(x, c.ty.args[0]) for x in lits]]
      b = itp.fresh_const("sx", sort(c.ty.args[0]))
      return [SymIter(b, c.ty.args[0], z3.Select(c.t, b), itp.value_of(b, c.ty.args[0]), "set", [z3.Select(c.t, b)], loc=v)]
    if c.ty.kind == "map": return view_segments(itp, ViewV(v, "keys"))
    if c.ty.kind == "list":
      n = z3.simplify(l_len(c.ty, c.t)); a = l_arr(c.ty, c.t)
      if z3.is_int_value(n) and n.as_long() <= 8: return [[itp.value_of(z3.Select(a, i), c.ty.args[0]) if not is_container(c.ty.args[0]) else elem_value(itp, v, ("k", z3.IntVal(i)), c.ty.args[0], z3.Select(a, i)) for i in range(n.as_long())]]
      src = None if positional or is_container(c.ty.args[0]) or rec_mutable(c.ty.args[0]) else itp.enum_meta.get((n.get_id(), a.get_id()))
      if src is not None: # a list that enumerates a set-like source: every element of the source once, in any order
        b0, bty, guard, term, ety, pats = src[:6]
        b = itp.fresh_const("se", b0.sort()); sb = lambda t: z3.substitute(t, (b0, b))
        return [SymIter(b, bty, sb(guard), itp.value_of(sb(term), ety), "set", [sb(p) for p in pats], loc=v)]
      b = itp.fresh_const("li", z3.IntSort())
      if is_container(c.ty.args[0]) or rec_mutable(c.ty.args[0]): val = elem_value(itp, v, ("k", b), c.ty.args[0], z3.Select(a, b))
      else: val = itp.value_of(z3.Select(a, b), c.ty.args[0])
      return [SymIter(b, INT, z3.And(0 <= b, b < n), val, "list", [z3.Select(a, b)], size=n, loc=v)]
  if isinstance(v, Sym) and v.ty.kind in ("bytes", "seq"):
    b = itp.fresh_const("bi", z3.IntSort())
    return [SymIter(b, INT, z3.And(0 <= b, b < z3.Length(v.t)), itp.value_of(v.t[b], INT if v.ty is BYTES else v.ty.args[0]), "list", [], size=z3.Length(v.t))]
  if isinstance(v, Sym) and v.ty is STR:
    b = itp.fresh_const("ci", z3.IntSort())
    return [SymIter(b, INT, z3.And(0 <= b, b < z3.Length(v.t)), Sym(z3.SubString(v.t, b, 1), STR), "list", [], size=z3.Length(v.t))]
  if isinstance(v, IterV):
    if v.kind == "iter": return segments(itp, v.args[0], positional)
    if v.kind == "chain":
      out = []
      for a in v.args: out += segments(itp, a)
      return out
    if v.kind == "enumerate":
      segs = segments(itp, v.args[0], True)
      if all(isinstance(s, list) for s in segs):
        flat = [x for s in segs for x in s]
        return [[(i, x) for i, x in enumerate(flat)]]
      if len(segs) == 1 and segs[0].kind == "list":
        s = segs[0]
        return [SymIter(s.b, s.bty, s.guard, (Sym(s.b, INT), s.value), "list", s.pats, s.exc, s.size, s.loc)]
    if v.kind == "reversed":
      segs = segments(itp, v.args[0], True)
      if all(isinstance(s, list) for s in segs): return [[x for s in segs for x in s][::-1]]
      if len(segs) == 1 and segs[0].kind == "list" and segs[0].size is not None:
        s = segs[0]
        return [SymIter(s.b, s.bty, s.guard, subst_value(itp, s.value, s.b, s.size - 1 - s.b), "list", [], s.exc, s.size, s.loc)]
    if v.kind == "zip":
      ss = [segments(itp, a, True) for a in v.args]
      if all(len(s) == 1 for s in ss):
        ss = [s[0] for s in ss]
        if all(isinstance(s, list) for s in ss): return [list(zip(*ss))]
        ss = [enumerated(itp, s) for s in ss]
        if all(isinstance(s, SymIter) and s.kind == "list" for s in ss):
          b = ss[0].b
          vals = [ss[0].value] + [subst_value(itp, s.value, s.b, b) for s in ss[1:]]
          n = ss[0].size
          for s in ss[1:]: n = z3.If(s.size < n, s.size, n)
          return [SymIter(b, INT, z3.And(0 <= b, b < n), tuple(vals), "list", ss[0].pats, size=n)]
    if v.kind == "map":
      f, src = v.args
      return gen_over(itp, src, lambda x: (True, itp.call(f, [x])))
    if v.kind == "filter":
      f, src = v.args
      return gen_over(itp, src, lambda x: ((itp.truth(itp.call(f, [x])) if f is not None else itp.truth(x)), x))
    raise Unsupported("iterator " + v.kind)
  if isinstance(v, GenV): return gen_segments(itp, v)
  if isinstance(v, ObjRef):
    cls = itp.st.cells[v.addr].cls
    if itp.class_member(cls, "__iter__"): return segments(itp, itp.call(itp.getattr(v, "__iter__")))
  if isinstance(v, ClassV) and itp.is_enum(v): return [[EnumV(v, n, x) for n, x in itp.enum_members(v)]]
  if isinstance(v, I.GenCall): return run_generator(itp, v)
  if isinstance(v, Sym) and v.ty.kind == "any":
    m = itp.any_methods.get((v.ty.args[0], "__iter__"))
    if m: return segments(itp, m(itp, v, [], {}))
  if v is None or isinstance(v, (int, float)) or (isinstance(v, Sym) and v.ty in (INT, BOOL, REAL)): itp.raise_py(TypeError, "not iterable")
  raise Unsupported(f"iteration over {v!r}")

def run_generator(itp, g):
  """run of a generator function; the yielded values in order. A body ending in `for x in s: yield e` gives the elements of (e for x in s)"""
  node = g.fn.node; last = node.body[-1] if not isinstance(node, ast.Lambda) else None
  yields = [x for s in getattr(node, "body", []) for x in ast.walk(s) if isinstance(x, (ast.Yield, ast.YieldFrom))] if last is not None else []
  if len(yields) == 1:
    y, src = yields[0], None
    if isinstance(last, ast.Expr) and last.value is y and isinstance(y, ast.YieldFrom): src = y.value
    if isinstance(last, ast.For) and not last.orelse and len(last.body) == 1 and isinstance(last.body[0], ast.Expr) and last.body[0].value is y and isinstance(y, ast.Yield) and y.value is not None:
      src = ast.GeneratorExp(y.value, [ast.comprehension(last.target, last.iter, [], 0)])
    if src is not None:
      r = ast.copy_location(ast.Return(src), last); ast.fix_missing_locations(r)
      fn2 = ast.FunctionDef(**{**{f: getattr(node, f, None) for f in node._fields}, "body": node.body[:-1] + [r]}); ast.copy_location(fn2, node)
      return segments(itp, itp.run_fn(I.FnV(fn2, g.fn.module, g.fn.closure, g.fn.cls, g.fn.qual, g.fn.defaults, g.fn.kwdefaults), g.args, g.kwargs))
  out = []
  def hook(i, val): out.append(val); return None
  itp.with_yield = itp.with_yield + [hook]
  n = len(itp.with_yield)
  try: itp.run_fn(g.fn, g.args, g.kwargs)
  finally: itp.with_yield = itp.with_yield[:n - 1]
  return [out]

def set_literal(t):
  """elements of Store(...Store(K(false),a,true)...) with syntactically decidable structure, else None"""
  out = []
  while z3.is_app_of(t, z3.Z3_OP_STORE):
    if not z3.is_true(t.arg(2)): return None
    out.append(t.arg(1)); t = t.arg(0)
  if z3.is_app_of(t, z3.Z3_OP_CONST_ARRAY) and z3.is_false(t.arg(0)): return out
  return None

def view_segments(itp, v):
  c = itp.content(v.loc)
  if isinstance(c, PyDictC):
    if v.kind == "keys": return [[itp.unkey(k) for k in c.d]]
    if v.kind == "values": return [list(c.d.values())]
    return [[(itp.unkey(k), x) for k, x in c.d.items()]]
  if c.ty is None: return [[]]
  d, va = m_dom(c.ty, c.t), m_val(c.ty, c.t)
  lits = set_literal(d)
  kt, vt = c.ty.args
  def val(b):
    if v.kind == "keys": return itp.value_of(b, kt)
    x = elem_value(itp, v.loc, ("k", b), vt, z3.Select(va, b))
    return x if v.kind == "values" else (itp.value_of(b, kt), x)
  if lits is not None and len(lits) <= 1: return [[val(x) for x in lits]]
  b = itp.fresh_const("kx", sort(kt))
  return [SymIter(b, kt, z3.Select(d, b), val(b), "set", [z3.Select(d, b)], loc=v.loc)]

def subst_value(itp, v, b, t):
  v = itp.deref(v)
  if isinstance(v, Sym): return Sym(z3.substitute(v.t, (b, t)), v.ty)
  if isinstance(v, tuple): return tuple(subst_value(itp, x, b, t) for x in v)
  if isinstance(v, LocRef):
    c = itp.content(v)
    if isinstance(c, ContC) and c.ty is not None: return itp.new_cont(c.kind, c.ty, z3.substitute(c.t, (b, t)), frozen=True) if is_container(c.ty) else Sym(z3.substitute(c.t, (b, t)), c.ty)
  return v

def pure_eval(itp, b, guard, thunk):
  """evaluate thunk under binder b with guard(b); -> (cases [(cond, value)], excs [(cond, exc value)], axioms)
  State changes inside are not kept; fresh constants become functions of b."""
  base = itp.st.copy()
  n0 = len(base.pc)
  c0 = base.counter
  st = base.copy(); st.pc.append((guard, True))
  itp.quiet += 1
  try: outs = itp.explore(thunk, st)
  finally: itp.quiet -= 1
  cases, excs, axioms = [], [], []
  cmax = c0
  for o in outs:
    cond = [f for f, ax in o.st.pc[n0 + 1:] if not ax]
    axs = [f for f, ax in o.st.pc[n0 + 1:] if ax]
    cmax = max(cmax, o.st.counter)
    cond = z3.And(*cond) if cond else z3.BoolVal(True)
    if o.kind == "normal":
      heap_changed(itp, base, o.st)
      cases.append((cond, o))
    elif o.kind == "raise": excs.append((cond, o))
    else: raise Unsupported("control flow inside an expression")
    for a in axs: axioms.append((cond, a))
  itp.st.counter = max(itp.st.counter, cmax)
  return cases, excs, axioms, c0

def heap_changed(itp, a, b):
  for k, c in a.cells.items():
    d = b.cells.get(k)
    if d is c: continue
    if isinstance(c, ContC) and isinstance(d, ContC) and c.ty is d.ty and (c.t is None or c.t.eq(d.t)): continue
    if isinstance(c, ObjC) and isinstance(d, ObjC) and c.fields == d.fields: continue
    if isinstance(c, FwdC) and isinstance(d, (FwdC, DeadC)): continue
    raise Unsupported("side effect inside an expression under a binder")
  for k, t in a.farr.items():
    if not b.farr[k].eq(t): raise Unsupported("side effect inside an expression under a binder")

def merge_terms(itp, cases, want=None):
  """[(cond, outcome)] -> (ty, term) merged with If; term computed in each outcome's state"""
  items = []
  tys = []
  saved = itp.st
  try:
    for cond, o in cases:
      itp.st = o.st
      v = o.value
      ty = itp.type_of(v)
      tys.append(ty)
    known = [t for t in tys if t is not None]
    if not known:
      if want is None: return None, None
      ty = want
    else: ty = want or UNION(*known)
    for cond, o in cases:
      itp.st = o.st
      n0 = len(itp.st.pc)
      t = itp.to_term(o.value, ty)
      items.append((cond, t))
  finally: itp.st = saved
  r = items[-1][1]
  for cond, t in reversed(items[:-1]): r = z3.If(cond, t, r)
  return ty, r

def skolemize(itp, b, c0, exprs):
  """fresh constants created while evaluating under binder b depend on b: replace them by functions of b.
  names carry the counter: name!N with N > c0"""
  consts = {}
  for e in exprs: consts.update(const_nodes(e))
  subs = []
  for i, c in consts.items():
    nm = c.decl().name()
    if c.eq(b) or "!" not in nm: continue
    try: n = int(nm.rsplit("!", 1)[1])
    except ValueError: continue
    if n > c0:
      f = z3.Function(nm + "@f", b.sort(), c.sort())
      subs.append((c, f(b)))
  return (lambda e: z3.substitute(e, *subs)) if subs else (lambda e: e)

class Elem:
  """summary of one generator element: b, guard (membership and filter), ty/term, exc condition"""
  def __init__(self, b, bty, guard, ty, term, pats, kind, exc, size, filtered, base_guard): 
    self.b, self.bty, self.guard, self.ty, self.term, self.pats, self.kind, self.exc, self.size, self.filtered, self.base_guard = b, bty, guard, ty, term, pats, kind, exc, size, filtered, base_guard

def gen_elem(itp, seg, fn, want=None):
  """fn(value) -> (include?, value); evaluated under seg's binder. Returns SymIter with merged value"""
  b = seg.b
  cases, excs, axioms, c0 = pure_eval(itp, b, seg.guard, lambda: fn(seg.value))
  inc = []
  for cond, o in cases:
    keep, val = o.value
    o.value = val
    if keep is True: inc.append((cond, o))
    elif keep is not False: raise Unsupported("symbolic filter value")
  exprs = []
  if inc: ty, term = merge_terms(itp, inc, want)
  else: ty, term = None, None
  icond = itp.bz(itp.disj([c for c, _ in inc])) if inc else z3.BoolVal(False)
  if inc and len(inc) == len(cases) and not excs: icond = z3.BoolVal(True)
  exprs = [icond] + ([term] if term is not None else []) + [c for c, _ in excs] + [x for p in axioms for x in p]
  sk = skolemize(itp, b, c0, exprs)
  icond = sk(icond); term = sk(term) if term is not None else None
  guard = seg.guard
  for cond, a in axioms:
    # definitional facts about auxiliary constants
    if b.get_id() in free_consts(sk(a)) | free_consts(sk(cond)):
      itp.assume(mk_forall([b], z3.Implies(z3.And(guard, sk(cond)), sk(a)), [[p] for p in seg.pats]))
    else: itp.assume(z3.Implies(sk(cond), sk(a)) if not z3.is_true(cond) else sk(a)) if False else itp.assume(mk_forall([b], z3.Implies(z3.And(guard, sk(cond)), sk(a)), [[p] for p in seg.pats]))
  for cond, o in excs:
    c = sk(cond)
    some = itp.fresh_const("genexc", z3.BoolSort()); w = itp.fresh_const("excw", b.sort())
    itp.assume(z3.Implies(some, z3.substitute(z3.And(guard, c), (b, w))))
    itp.assume(z3.Implies(z3.Not(some), mk_forall([b], z3.Implies(guard, z3.Not(c)), [[p] for p in seg.pats])))
    if itp.decide(some):
      ev = o.value
      raise PyRaise(ExcV(ev.py, ()) if isinstance(ev, ExcV) else ev)
  g2 = z3.simplify(z3.And(guard, icond))
  filtered = not z3.is_true(z3.simplify(icond))
  return ty, term, icond, filtered

class Under:
  """value given as (ty, term) under a binder"""

def gen_over(itp, src, fn):
  out = []
  for seg in segments(itp, src):
    if isinstance(seg, list):
      l = []
      for x in seg:
        keep, val = fn(x)
        if keep: l.append(val)
      out.append(l)
    else:
      ty, term, icond, filtered = gen_elem(itp, seg, fn)
      if ty is None and term is None: 
        out.append([]); continue
      guard = z3.simplify(z3.And(seg.guard, icond))
      out.append(SymIter(seg.b, seg.bty, guard, TermV(ty, term), seg.kind, seg.pats, size=None if filtered else seg.size, loc=seg.loc))
      out[-1].filtered = filtered
      out[-1].full = seg.size if seg.size is not None else getattr(seg, "full", None)
  return out

def TermV(ty, term):
  if ty.kind == "tup": return tuple(TermV(a, acc(sort(ty), 0, i, term)) for i, a in enumerate(ty.args))
  if ty.kind == "none": return None
  return Sym(term, ty)

def gen_segments(itp, g):
  node = g.node
  elt = node.elt if hasattr(node, "elt") else ast.Tuple([node.key, node.value], ast.Load())
  def level(i, fid, src):
    gen = node.generators[i]
    if gen.is_async: raise Unsupported("async comprehension")
    def body(x):
      fid2 = itp.new_frame(fid); itp.st.frames[fid2]["$comp"] = True
      cx = I.Ctx(fid2, g.module, g.cls)
      itp.assign(gen.target, x, cx)
      for cond in gen.ifs:
        if not itp.truth(itp.ev(cond, cx)): return (False, None)
      return (True, itp.ev(elt, cx))
    if i == len(node.generators) - 1: return gen_over(itp, src, body)
    # nested: outer must be concrete
    out = []
    for seg in segments(itp, src):
      if not isinstance(seg, list): raise Unsupported("nested comprehension over a symbolic source")
      for x in seg:
        fid2 = itp.new_frame(fid); itp.st.frames[fid2]["$comp"] = True
        cx = I.Ctx(fid2, g.module, g.cls)
        itp.assign(gen.target, x, cx)
        if all(itp.truth(itp.ev(c, cx)) for c in gen.ifs):
          out += level(i + 1, fid2, itp.ev(node.generators[i + 1].iter, cx))
    return out
  src = itp.ev(node.generators[0].iter, I.Ctx(g.fid, g.module, g.cls))
  return level(0, g.fid, src)

def seg_term(itp, seg, want=None):
  ty = itp.type_of(seg.value) if want is None else want
  if ty is None: raise Unsupported("untyped element")
  return ty, itp.to_term(seg.value, ty)

def inverse(ty, term, b, bty):
  """g with term(b)=p => b=g(p), if recognisable: returns fn(p)->b term"""
  if term.eq(b): return lambda p: p
  def solve(arg, target):
    """arg == target [+ c]: returns fn(p_arg) or None"""
    if arg.eq(target): return lambda x: x
    if z3.is_app_of(arg, z3.Z3_OP_ADD) and arg.num_args() == 2:
      for i in (0, 1):
        if arg.arg(i).eq(target) and b.get_id() not in free_consts(arg.arg(1 - i)):
          c = arg.arg(1 - i)
          return lambda x: x - c
    if z3.is_app_of(arg, z3.Z3_OP_SUB) and arg.num_args() == 2 and arg.arg(0).eq(target) and b.get_id() not in free_consts(arg.arg(1)):
      c = arg.arg(1)
      return lambda x: x + c
    return None
  if ty.kind in ("int",):
    return solve(term, b)
  if ty.kind in ("rec", "tup") and z3.is_app(term) and term.decl().eq(sort(ty).constructor(0)):
    args = [term.arg(i) for i in range(term.num_args())]
    for i, a in enumerate(args):
      s = solve(a, b)
      if s is not None: return lambda p, i=i, s=s: s(acc(sort(ty), 0, i, p))
    if bty.kind in ("rec", "tup"):
      n = sort(bty).constructor(0).arity()
      sol = []
      for j in range(n):
        tgt = sort(bty).accessor(0, j)(b)
        hit = None
        for i, a in enumerate(args):
          s = solve(a, tgt)
          if s is not None: hit = (i, s); break
        if hit is None: return None
        sol.append(hit)
      return lambda p: sort(bty).constructor(0)(*(s(acc(sort(ty), 0, i, p)) for i, s in sol))
  return None

def seg_to_set(itp, seg, want=None):
  """-> (SET ty, term)"""
  ty, term = seg_term(itp, seg, want)
  b = seg.b
  if seg.kind == "set" and term.eq(b) and z3.is_app_of(seg.guard, z3.Z3_OP_SELECT) and seg.guard.arg(1).eq(b) and b.get_id() not in free_consts(seg.guard.arg(0)):
    return SET(ty), seg.guard.arg(0)
  R = itp.fresh_const("cset", sort(SET(ty)))
  inv = inverse(ty, term, b, seg.bty)
  if inv is not None:
    k = z3.Const("k!" + str(itp.st.counter), sort(ty))
    gk = inv(k)
    body = z3.And(z3.substitute(seg.guard, (b, gk)), z3.substitute(term, (b, gk)) == k)
    itp.assume(mk_forall([k], z3.Select(R, k) == z3.simplify(body), [z3.Select(R, k)]))
    if not term.eq(b): itp.assume(mk_forall([b], z3.Implies(seg.guard, z3.Select(R, term)), [[p] for p in seg.pats]))
  else:
    g = itp.fresh_fn("gen", sort(ty), b.sort())
    k = z3.Const("k!" + str(itp.st.counter), sort(ty))
    itp.assume(mk_forall([b], z3.Implies(seg.guard, z3.Select(R, term)), [[p] for p in seg.pats]))
    itp.assume(mk_forall([k], z3.Implies(z3.Select(R, k), z3.And(z3.substitute(seg.guard, (b, g(k))), z3.substitute(term, (b, g(k))) == k)), [z3.Select(R, k)]))
  return SET(ty), R

def set_union(itp, ty, a, b):
  if b is None: return a
  if a is None: return b
  R = itp.fresh_const("union", sort(ty)); k = z3.Const("k!un", sort(ty.args[0]))
  itp.assume(mk_forall([k], z3.Select(R, k) == z3.Or(z3.Select(a, k), z3.Select(b, k)), [[z3.Select(R, k)], [z3.Select(a, k)], [z3.Select(b, k)]]))
  return R
def set_inter(itp, ty, a, b):
  R = itp.fresh_const("inter", sort(ty)); k = z3.Const("k!in", sort(ty.args[0]))
  itp.assume(mk_forall([k], z3.Select(R, k) == z3.And(z3.Select(a, k), z3.Select(b, k)), [[z3.Select(R, k)], [z3.Select(a, k)], [z3.Select(b, k)]]))
  return R
def set_diff(itp, ty, a, b):
  R = itp.fresh_const("diff", sort(ty)); k = z3.Const("k!df", sort(ty.args[0]))
  itp.assume(mk_forall([k], z3.Select(R, k) == z3.And(z3.Select(a, k), z3.Not(z3.Select(b, k))), [[z3.Select(R, k)], [z3.Select(a, k)], [z3.Select(b, k)]]))
  return R

def build_set(itp, v, want=None):
  loc = LocRef(("cell", itp.alloc(ContC("set", None, None))))
  for seg in segments(itp, v):
    if isinstance(seg, list):
      for x in seg: set_add(itp, loc, x)
    else:
      c = itp.content(loc)
      ty, t = seg_to_set(itp, seg, c.ty.args[0] if c.ty is not None else want)
      if c.ty is not None: t = set_union(itp, ty, c.t, t)
      itp.set_content(loc, ContC("set", ty, t))
  return loc

def enum_list(itp, ety, guard, b, term, ty, pats):
  """list enumerating a set-like source in arbitrary order: every element once"""
  n = itp.fresh_const("enn", z3.IntSort()); key = itp.fresh_const("enk", z3.ArraySort(z3.IntSort(), b.sort()))
  pos = itp.fresh_fn("enpos", b.sort(), z3.IntSort()); i = z3.Int("i!en")
  itp.assume(n >= 0)
  ki = z3.Select(key, i)
  itp.assume(mk_forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.substitute(guard, (b, ki)), pos(ki) == i)), [ki]))
  itp.assume(mk_forall([b], z3.Implies(guard, z3.And(0 <= pos(b), pos(b) < n, z3.Select(key, pos(b)) == b)), [[p] for p in pats] + [[pos(b)]]))
  if term.eq(b): return n, key
  arr = itp.fresh_const("enl", z3.ArraySort(z3.IntSort(), sort(ty)))
  itp.assume(mk_forall([i], z3.Select(arr, i) == z3.substitute(term, (b, ki)), [[z3.Select(arr, i)], [ki]]))
  return n, arr

def seg_to_list(itp, seg, want=None):
  ty, term = seg_term(itp, seg, want)
  b = seg.b
  lt = LIST(ty)
  filtered = getattr(seg, "filtered", False)
  if seg.kind == "set":
    n, arr = enum_list(itp, ty, seg.guard, b, term, ty, seg.pats)
    itp.enum_meta[(n.get_id(), arr.get_id())] = (b, seg.bty, seg.guard, term, ty, seg.pats, n, arr)
    return lt, mk(lt, n, arr)
  i = z3.Int("i!cl")
  if not filtered and seg.size is not None:
    if z3.is_app_of(term, z3.Z3_OP_SELECT) and term.arg(1).eq(b) and b.get_id() not in free_consts(term.arg(0)): return lt, mk(lt, seg.size, term.arg(0))
    arr = itp.fresh_const("cl", z3.ArraySort(z3.IntSort(), sort(ty)))
    itp.assume(mk_forall([b], z3.Select(arr, b) == term, [[z3.Select(arr, b)]] + [[p] for p in seg.pats]) if not has_partial(term) else mk_forall([b], z3.Implies(seg.guard, z3.Select(arr, b) == term), [[z3.Select(arr, b)]] + [[p] for p in seg.pats]))
    return lt, mk(lt, z3.simplify(seg.size), arr)
  # filtered: monotone index map
  n = itp.fresh_const("fn", z3.IntSort()); arr = itp.fresh_const("fl", z3.ArraySort(z3.IntSort(), sort(ty)))
  m = itp.fresh_fn("fidx", z3.IntSort(), z3.IntSort()); pos = itp.fresh_fn("fpos", z3.IntSort(), z3.IntSort())
  j = z3.Int("j!cl")
  itp.assume(n >= 0)
  itp.assume(mk_forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.substitute(seg.guard, (b, m(i))), z3.Select(arr, i) == z3.substitute(term, (b, m(i))), pos(m(i)) == i)), [[z3.Select(arr, i)], [m(i)]]))
  itp.assume(mk_forall([b], z3.Implies(seg.guard, z3.And(0 <= pos(b), pos(b) < n, m(pos(b)) == b)), [[p] for p in seg.pats] + [[pos(b)]]))
  itp.assume(mk_forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), m(i) < m(j)), [[m(i), m(j)]]))
  full = getattr(seg, "full", None)
  if full is not None:   # the filtered list is as long as the whole one only if nothing is left out
    w = itp.fresh_const("left", z3.IntSort())
    itp.assume(z3.And(n <= full, z3.Or(n == full, z3.And(0 <= w, w < full, z3.Not(z3.substitute(seg.guard, (b, w)))))))
    itp.assume(mk_forall([b], z3.Implies(z3.And(0 <= b, b < full, z3.Not(seg.guard)), n < full), [[p] for p in seg.pats] + [[pos(b)]]))
  return lt, mk(lt, n, arr)
def has_partial(t): return True

def build_list(itp, v, want=None):
  v = itp.resolve(v)
  if isinstance(v, LocRef):
    c = itp.content(v)
    if isinstance(c, ContC) and c.ty is not None and c.ty.kind == "list" and not is_container(c.ty.args[0]) and not rec_mutable(c.ty.args[0]): return itp.new_cont("list", c.ty, c.t)
  segs = segments(itp, v)
  if all(isinstance(s, list) for s in segs): return itp.new_list([x for s in segs for x in s])
  cur = None
  for s in segs:
    if isinstance(s, list):
      if not s: continue
      l = itp.new_list(s)
      ty = LIST(UNION(*[itp.type_of(x) for x in s]))
      t = (ty, itp.cell_term(itp.content(l), ty))
    else: t = seg_to_list(itp, s, want)
    if cur is None: cur = t
    else:
      if cur[0] is not t[0]: raise Unsupported("mixed list segments")
      cur = (t[0], list_concat(itp, t[0], cur[1], t[1]))
  return itp.new_cont("list", cur[0], cur[1])

def list_concat(itp, ty, a, b):
  na, nb, aa, ab = l_len(ty, a), l_len(ty, b), l_arr(ty, a), l_arr(ty, b)
  arr = itp.fresh_const("cat", z3.ArraySort(z3.IntSort(), sort(ty.args[0]))); i = z3.Int("i!cat")
  itp.assume(mk_forall([i], z3.Select(arr, i) == z3.If(i < na, z3.Select(aa, i), z3.Select(ab, i - na)), [[z3.Select(arr, i)]]))
  itp.assume(mk_forall([i], z3.Implies(i < na, z3.Select(arr, i) == z3.Select(aa, i)), [[z3.Select(aa, i)]]))
  itp.assume(mk_forall([i], z3.Implies(i >= 0, z3.Select(arr, i + na) == z3.Select(ab, i)), [[z3.Select(ab, i)]]))
  return mk(ty, z3.simplify(na + nb), arr)

def dict_comp(itp, g):
  segs = gen_segments(itp, g)
  return dict_from_segments(itp, segs)
def dict_from_segments(itp, segs):
  d = itp.new_dict({})
  for s in segs:
    if isinstance(s, list):
      for kv in s:
        k, v = unpack(itp, kv, 2, None)
        setitem(itp, d, k, v)
      continue
    kv = s.value
    if not (isinstance(kv, tuple) and len(kv) == 2): raise Unsupported("dict from symbolic pairs")
    kt, vt = itp.type_of(kv[0]), itp.type_of(kv[1])
    if kt is None or vt is None: raise Unsupported("untyped dict comprehension")
    k0, v0 = itp.to_term(kv[0], kt), itp.to_term(kv[1], vt)
    ty = MAP(kt, vt)
    R = itp.fresh_const("cmap", sort(ty))
    dm, va = m_dom(ty, R), m_val(ty, R)
    b = s.b
    k = z3.Const("k!" + str(itp.st.counter), sort(kt))
    inv = inverse(kt, k0, b, s.bty)
    if inv is not None:
      gk = inv(k)
      itp.assume(mk_forall([k], z3.Select(dm, k) == z3.simplify(z3.And(z3.substitute(s.guard, (b, gk)), z3.substitute(k0, (b, gk)) == k)), [z3.Select(dm, k)]))
      itp.assume(mk_forall([k], z3.Implies(z3.Select(dm, k), z3.Select(va, k) == z3.substitute(v0, (b, gk))), [[z3.Select(va, k)]]))
    else:
      gf = itp.fresh_fn("gen", sort(kt), b.sort())
      itp.assume(mk_forall([k], z3.Implies(z3.Select(dm, k), z3.And(z3.substitute(s.guard, (b, gf(k))), z3.substitute(k0, (b, gf(k))) == k, z3.Select(va, k) == z3.substitute(v0, (b, gf(k))))), [[z3.Select(dm, k)], [z3.Select(va, k)]]))
      itp.assume(mk_forall([b], z3.Implies(s.guard, z3.Select(dm, k0)), [[p] for p in s.pats]))
      if s.kind == "list": itp.assume(mk_forall([b], z3.Implies(s.guard, b <= gf(k0)), [[p] for p in s.pats]))
    m = itp.new_cont("map", ty, R)
    dict_update(itp, d, m)
  return d

def concrete_items(itp, v):
  segs = segments(itp, v)
  if any(not isinstance(s, list) for s in segs): raise Unsupported("symbolic iterable where a concrete one is needed")
  return [x for s in segs for x in s]

def list_display(itp, e, cx):
  parts = []
  cur = []
  for x in e.elts:
    if isinstance(x, ast.Starred):
      if cur: parts.append(tuple(cur)); cur = []
      parts.append(itp.ev(x.value, cx))
    else: cur.append(itp.ev(x, cx))
  if cur: parts.append(tuple(cur))
  return build_list(itp, IterV("chain", parts))

def unpack(itp, v, n, starred):
  v = itp.resolve(v)
  if starred is not None:
    tail = n - 1 - starred
    lst = isinstance(v, LocRef) and (isinstance(itp.content(v), PyListC) or isinstance(itp.content(v), ContC) and itp.content(v).ty is not None and itp.content(v).ty.kind == "list")
    whole = v if lst else itp.new_list(list(concrete_items(itp, v)))
    if not itp.truth(itp.compare("GtE", length(itp, whole), n - 1)): itp.raise_py(ValueError, "unpack")
    head = [getitem(itp, whole, i) for i in range(starred)]
    back = [getitem(itp, whole, -i) for i in range(tail, 0, -1)]
    return head + [getitem(itp, whole, SliceV(starred, -tail if tail else None, None))] + back
  if isinstance(v, tuple):
    if len(v) != n: itp.raise_py(ValueError, "unpack")
    return list(v)
  if isinstance(v, LocRef):
    c = itp.content(v)
    if isinstance(c, PyListC):
      if len(c.items) != n: itp.raise_py(ValueError, "unpack")
      return list(c.items)
    if isinstance(c, ContC) and c.ty is not None and c.ty.kind == "list":
      if not itp.decide(l_len(c.ty, c.t) == n): itp.raise_py(ValueError, "unpack")
      return [getitem(itp, v, i) for i in range(n)]
  items = concrete_items(itp, v)
  if len(items) != n: itp.raise_py(ValueError, "unpack")
  return items

# ------------------------------------------------------------------ arithmetic
def is_num(v): return isinstance(v, (int, float)) or (isinstance(v, Sym) and v.ty in (INT, REAL, BOOL))
def num_ty(v):
  if isinstance(v, bool): return INT
  if isinstance(v, int): return INT
  if isinstance(v, float): return REAL
  return INT if v.ty in (INT, BOOL) else REAL

def pyfloordiv(a, b):
  q = a / b
  return z3.If(b > 0, q, z3.If(a % b == 0, q, q - 1)) if not (z3.is_int_value(b) and b.as_long() > 0) else q
def pymod(a, b):
  """python modulo from SMT euclidean div"""
  if z3.is_int_value(b) and b.as_long() > 0: return a % b
  m = a % b
  return z3.If(b > 0, m, z3.If(m == 0, m, m + b))

DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "FloorDiv": "__floordiv__", "Mod": "__mod__", "BitOr": "__or__", "BitAnd": "__and__", "Pow": "__pow__"}

def binop(itp, op, a, b):
  a, b = itp.resolve(a), itp.resolve(b)
  for x in (a, b):
    if isinstance(x, Sym) and x.ty.kind == "any":
      m = itp.any_methods.get((x.ty.args[0], "$" + op))
      if m: return m(itp, a, [b], {})
      raise Unsupported(f"{op} on opaque {x.ty}")
  if isinstance(a, ObjRef) and op in DUNDER and itp.class_member(itp.st.cells[a.addr].cls, DUNDER[op]): return itp.call(itp.getattr(a, DUNDER[op]), [b])
  if is_num(a) and is_num(b): return num_op(itp, op, a, b)
  strs = lambda x: isinstance(x, str) or (isinstance(x, Sym) and x.ty is STR)
  byts = lambda x: isinstance(x, (bytes, bytearray)) or (isinstance(x, Sym) and x.ty is BYTES)
  if op == "Add" and strs(a) and strs(b):
    if isinstance(a, str) and isinstance(b, str): return a + b
    if a == "": return b
    if b == "": return a
    return Sym(z3.Concat(itp.to_term(a, STR), itp.to_term(b, STR)), STR)
  if op == "Add" and byts(a) and byts(b):
    if not isinstance(a, Sym) and not isinstance(b, Sym): return bytes(a) + bytes(b)
    return Sym(z3.Concat(itp.to_term(a, BYTES), itp.to_term(b, BYTES)), BYTES)
  if op == "Add" and isinstance(a, Sym) and isinstance(b, Sym) and a.ty.kind == "seq" and a.ty is b.ty: return Sym(z3.Concat(a.t, b.t), a.ty)
  if op == "Mod" and strs(a): return itp.fresh("fmt", STR)
  if op == "Mult" and isinstance(a, (str, bytes)) and isinstance(b, int): return a * b
  if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple): return a + b
  if isinstance(a, ViewV) or isinstance(b, ViewV):
    if op in ("BitAnd", "BitOr", "Sub", "BitXor"):
      ta, _ = as_set(itp, a); tb, _ = as_set(itp, b)
      if isinstance(a, ViewV): a = as_set_value(itp, a)
      if isinstance(b, ViewV): b = as_set_value(itp, b)
  if isinstance(a, LocRef) and isinstance(b, LocRef):
    ca, cb = itp.content(a), itp.content(b)
    if op in ("BitOr", "BitAnd", "Sub") and isinstance(ca, ContC) and ca.kind == "set":
      return call_method(itp, a, {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference"}[op], [b], {})
    if op == "BitOr":
      d = itp.new_dict({})
      dict_update(itp, d, a); dict_update(itp, d, b)
      return d
    if op == "Add": return build_list(itp, IterV("chain", [a, b]))
  if op == "Mult" and isinstance(a, LocRef):
    c = itp.content(a)
    if isinstance(c, PyListC) and isinstance(b, int): return itp.new_list(tuple(c.items) * b)
    if isinstance(c, PyListC) and len(c.items) == 1 and isinstance(b, Sym):
      ty = LIST(itp.type_of(c.items[0])); t = itp.to_term(c.items[0], ty.args[0])
      return itp.new_cont("list", ty, mk(ty, z3.If(b.t > 0, b.t, z3.IntVal(0)), z3.K(z3.IntSort(), t)))
  if a is None or b is None: itp.raise_py(TypeError, "unsupported operand")
  if (strs(a) or byts(a) or is_num(a)) and (strs(b) or byts(b) or is_num(b)): itp.raise_py(TypeError, "unsupported operand")
  raise Unsupported(f"operator {op} on {a!r}, {b!r}")

def num_op(itp, op, a, b):
  if not isinstance(a, Sym) and not isinstance(b, Sym):
    try:
      return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Pow": lambda: a ** b,
              "BitOr": lambda: a | b, "BitAnd": lambda: a & b, "BitXor": lambda: a ^ b, "LShift": lambda: a << b, "RShift": lambda: a >> b}[op]()
    except ZeroDivisionError: itp.raise_py(ZeroDivisionError)
    except OverflowError: itp.raise_py(OverflowError)
  for x, y, flip in ((a, b, False), (b, a, True)):
    if isinstance(x, float) and abs(x) == INF_F:
      if op == "Add": return x
      if op == "Sub": return -x if flip else x
      raise Unsupported("infinite operand")
  ty = REAL if REAL in (num_ty(a), num_ty(b)) else INT
  if op in ("Add", "Sub", "Mult"):
    x, y = itp.to_term(a, ty), itp.to_term(b, ty)
    return Sym(z3.simplify({"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y}[op]()), ty)
  if op == "Div":
    x, y = itp.to_term(a, REAL), itp.to_term(b, REAL)
    if itp.decide(y == 0): itp.raise_py(ZeroDivisionError)
    return Sym(x / y, REAL)
  if op in ("FloorDiv", "Mod"):
    x, y = itp.to_term(a, ty), itp.to_term(b, ty)
    if itp.decide(y == 0): itp.raise_py(ZeroDivisionError)
    if ty is INT: return Sym(pyfloordiv(x, y) if op == "FloorDiv" else pymod(x, y), INT)
    q = z3.ToReal(z3.ToInt(x / y))
    return Sym(q if op == "FloorDiv" else x - q * y, REAL)
  if op == "Pow":
    m = itp.ext_models.get("$pow")
    if m: return m(itp, [a, b], {})
  if op in ("BitOr", "BitAnd", "BitXor") and all(isinstance(x, bool) or (isinstance(x, Sym) and x.ty is BOOL) for x in (a, b)):
    x, y = itp.to_term(a, BOOL), itp.to_term(b, BOOL)
    return Sym({"BitOr": z3.Or, "BitAnd": z3.And, "BitXor": z3.Xor}[op](x, y), BOOL)
  if op == "LShift" and isinstance(b, int): return Sym(itp.to_term(a, INT) * (1 << b), INT)
  if op == "RShift" and isinstance(b, int): return Sym(itp.to_term(a, INT) / (1 << b), INT)
  if op == "BitAnd" and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0: return Sym(itp.to_term(a, INT) % (b + 1), INT)
  if op in ("BitOr", "BitAnd", "BitXor"):
    f = z3.Function("bit" + op, z3.IntSort(), z3.IntSort(), z3.IntSort())
    return Sym(f(itp.to_term(a, INT), itp.to_term(b, INT)), INT)
  raise Unsupported("operator " + op)

def iop(itp, op, a, b):
  a = itp.resolve(a)
  if isinstance(a, LocRef):
    c = itp.content(a)
    if op == "Add" and (isinstance(c, PyListC) or c.kind == "list"):
      call_method(itp, a, "extend", [b], {}); return a
    if op == "BitOr" and isinstance(c, ContC) and c.kind == "set":
      call_method(itp, a, "update", [b], {}); return a
    if op == "BitOr":
      dict_update(itp, a, b); return a
    if op in ("Sub", "BitAnd") and isinstance(c, ContC) and c.kind == "set":
      call_method(itp, a, "difference_update" if op == "Sub" else "intersection_update", [b], {}); return a
  return binop(itp, op, a, b)

def unop(itp, op, v):
  v = itp.resolve(v)
  if isinstance(v, Sym) and v.ty.kind == "any":
    m = itp.any_methods.get((v.ty.args[0], "$" + op))
    if m: return m(itp, v, [], {})
  if not isinstance(v, Sym):
    return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[op]()
  if op == "USub": return Sym(-itp.to_term(v, num_ty(v)), num_ty(v))
  if op == "UAdd": return v
  raise Unsupported("operator " + op)

def order(itp, op, a, b):
  a, b = itp.resolve(a), itp.resolve(b)
  for x in (a, b):
    if isinstance(x, Sym) and x.ty.kind == "any":
      m = itp.any_methods.get((x.ty.args[0], "$" + op))
      if m: return T_(itp, m(itp, a, [b], {}))
  f = {"Lt": lambda x, y: x < y, "LtE": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "GtE": lambda x, y: x >= y}[op]
  if is_num(a) and is_num(b):
    if not isinstance(a, Sym) and not isinstance(b, Sym): return f(a, b)
    if isinstance(a, float) and abs(a) == INF_F: return f(a, 0)
    if isinstance(b, float) and abs(b) == INF_F: return f(0, b)
    ty = REAL if REAL in (num_ty(a), num_ty(b)) else INT
    return f(itp.to_term(a, ty), itp.to_term(b, ty))
  if isinstance(a, str) and isinstance(b, str): return f(a, b)
  if all(isinstance(x, str) or (isinstance(x, Sym) and x.ty is STR) for x in (a, b)):
    x, y = itp.to_term(a, STR), itp.to_term(b, STR)
    return {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: y < x, "GtE": lambda: y <= x}[op]()
  if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a:
    if len(a) == 1: return order(itp, op, a[0], b[0])
    strict = {"Lt": "Lt", "LtE": "Lt", "Gt": "Gt", "GtE": "Gt"}[op]
    return itp.disj([T(order(itp, strict, a[0], b[0])), itp.conj([T(T_(itp, itp.boolv(itp.eq(a[0], b[0])))), T(order(itp, op, a[1:], b[1:]))])])
  if a is None or b is None: itp.raise_py(TypeError, "order")
  if isinstance(a, LocRef) and isinstance(b, LocRef):
    ca, cb = itp.content(a), itp.content(b)
    if isinstance(ca, ContC) and ca.kind == "set" and isinstance(cb, ContC) and cb.kind == "set":
      if op in ("GtE", "Gt"): a, b = b, a
      return T_(itp, call_method(itp, a, "issubset", [b], {})) if op in ("LtE", "GtE") else itp.conj([T(T_(itp, call_method(itp, a, "issubset", [b], {}))), T(itp.neg(cont_eq(itp, a, b)))])
  if (is_num(a) or isinstance(a, str) or (isinstance(a, Sym) and a.ty is STR)) and (is_num(b) or isinstance(b, str) or (isinstance(b, Sym) and b.ty is STR)): itp.raise_py(TypeError, "order")
  raise Unsupported(f"order of {a!r}, {b!r}")

# ------------------------------------------------------------------ strings
INT_OK = z3.Function("py_int_ok", z3.StringSort(), z3.BoolSort())
INT_VAL = z3.Function("py_int_val", z3.StringSort(), z3.IntSort())
FLT_OK = z3.Function("py_float_ok", z3.StringSort(), z3.BoolSort())
FLT_VAL = z3.Function("py_float_val", z3.StringSort(), z3.RealSort())
DIG = z3.Range("0", "9")

def int_facts(itp, s):
  digits = z3.InRe(s, z3.Plus(DIG))
  itp.assume(z3.Implies(digits, z3.And(INT_OK(s), INT_VAL(s) == z3.StrToInt(s))))
  neg = z3.And(z3.PrefixOf(z3.StringVal("-"), s), z3.InRe(z3.SubString(s, 1, z3.Length(s) - 1), z3.Plus(DIG)))
  itp.assume(z3.Implies(neg, z3.And(INT_OK(s), INT_VAL(s) == -z3.StrToInt(z3.SubString(s, 1, z3.Length(s) - 1)))))
  itp.assume(z3.Implies(z3.Length(s) == 0, z3.Not(INT_OK(s))))
  itp.assumptions.add("int(text) is modelled exactly on optionally signed ASCII digit strings and the empty string; on other text it is an arbitrary partial function")

def int_to_str(itp, t):
  t = z3.simplify(t)
  if z3.is_int_value(t): return z3.StringVal(str(t.as_long()))
  r = itp.fresh_const("istr", z3.StringSort())
  itp.assume(z3.Implies(t >= 0, r == z3.IntToStr(t)))
  itp.assume(z3.Implies(t < 0, r == z3.Concat(z3.StringVal("-"), z3.IntToStr(-t))))
  # facts about decimal notation (str.from_int / str.to_int are inverse on non-negative integers)
  itp.assume(z3.Implies(t >= 0, z3.And(z3.StrToInt(r) == t, z3.InRe(r, z3.Plus(DIG)))))
  itp.assume(z3.Implies(t < 0, z3.And(z3.StrToInt(z3.SubString(r, 1, z3.Length(r) - 1)) == -t, z3.InRe(r, z3.Concat(z3.Re("-"), z3.Plus(DIG))))))
  return r

def str_of(itp, v):
  v = itp.resolve(v)
  if isinstance(v, str): return v
  if isinstance(v, bool) or v is None: return str(v)
  if isinstance(v, int): return str(v)
  if isinstance(v, Sym):
    if v.ty is STR: return v
    if v.ty is INT: return Sym(int_to_str(itp, v.t), STR)
    if v.ty is BOOL: return Sym(z3.If(v.t, z3.StringVal("True"), z3.StringVal("False")), STR)
    return itp.fresh("str", STR)
  if isinstance(v, (ExcV, float, LocRef, tuple, EnumV, ClassV, bytes)): return itp.fresh("str", STR)
  if isinstance(v, ObjRef):
    if itp.class_member(itp.st.cells[v.addr].cls, "__str__"): return itp.call(itp.getattr(v, "__str__"))
    return itp.fresh("str", STR)
  raise Unsupported("str of " + repr(v))

def flat_concat(t):
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT: return [y for x in t.children() for y in flat_concat(x)]
  return [t]
def join_concat(ts, empty):
  ts = [x for x in ts if not (z3.is_string_value(x) and x.as_string() == "")]
  return empty if not ts else ts[0] if len(ts) == 1 else z3.Concat(*ts)
def split_known(itp, t, sep):
  """text written as before + sep + after with no separator before: its first split is that one"""
  if len(sep) != 1: return None
  fl = flat_concat(t)
  for i, x in enumerate(fl):
    if z3.is_string_value(x):
      c = x.as_string()
      if sep not in c: continue
      j = c.index(sep)
      return join_concat(fl[:i] + [z3.StringVal(c[:j])], z3.StringVal("")), join_concat([z3.StringVal(c[j + 1:])] + fl[i + 1:], z3.StringVal(""))
    if not itp.entails(z3.Not(z3.Contains(x, z3.StringVal(sep))), timeout=3000): return None
  return None

def str_method(itp, s, name, args, kwargs):
  args = [itp.resolve(a) for a in args]
  if isinstance(s, str) and all(isinstance(a, (str, int, tuple)) and not isinstance(a, Sym) for a in args) and not any(isinstance(x, Sym) for a in args if isinstance(a, tuple) for x in a) and name not in ("join", "format"):
    r = getattr(s, name)(*args, **kwargs)
    return itp.new_list(r) if isinstance(r, list) else r
  st = itp.to_term(s, STR)
  if name == "join":
    segs = segments(itp, args[0])
    if all(isinstance(x, list) for x in segs):
      items = [x for sg in segs for x in sg]
      r = ""
      for i, x in enumerate(items):
        if i: r = binop(itp, "Add", r, s)
        r = binop(itp, "Add", r, x)
      return r
    m = itp.ext_models.get("$join")
    if m: return m(itp, [s, args[0]], {})
    raise Unsupported("join over a symbolic iterable")
  if name in ("startswith", "endswith"):
    opts = args[0] if isinstance(args[0], tuple) else (args[0],)
    f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
    if len(args) == 2 and name == "startswith":
      o = itp.to_term(args[1], INT)
      return itp.boolv(itp.disj([z3.And(o <= z3.Length(st), f(itp.to_term(x, STR), z3.SubString(st, o, z3.Length(st)))) for x in opts]))
    if len(args) > 1: raise Unsupported(name)
    return itp.boolv(itp.disj([f(itp.to_term(x, STR), st) for x in opts]))
  if name == "split" and args and isinstance(args[0], str) and args[0]:
    sep = z3.StringVal(args[0])
    limit = args[1] if len(args) > 1 else kwargs.get("maxsplit", -1)
    parts, rest = [], st
    for i in range(4):
      if limit == i or not itp.decide(z3.Contains(rest, sep)): return itp.new_list([Sym(p, STR) for p in parts] + [Sym(rest, STR)])
      if i == 3: break
      known = split_known(itp, rest, args[0])
      if known is not None:
        parts.append(known[0]); rest = known[1]
        continue
      a, r = itp.fresh_const("part", z3.StringSort()), itp.fresh_const("rest", z3.StringSort())
      itp.assume(rest == z3.Concat(a, sep, r)); itp.assume(z3.Not(z3.Contains(a, sep)) if len(args[0]) == 1 else z3.IndexOf(rest, sep, 0) == z3.Length(a))
      parts.append(a); rest = r
    l = itp.fresh_const("parts", sort(LIST(STR)))
    ty = LIST(STR)
    itp.assume(l_len(ty, l) >= 5)
    for i, p in enumerate(parts): itp.assume(z3.Select(l_arr(ty, l), i) == p)
    return itp.new_cont("list", ty, l)
  if name == "find":
    r = z3.IndexOf(st, itp.to_term(args[0], STR), itp.to_term(args[1], INT) if len(args) > 1 else z3.IntVal(0))
    return Sym(r, INT)
  if name == "index":
    r = z3.IndexOf(st, itp.to_term(args[0], STR), itp.to_term(args[1], INT) if len(args) > 1 else z3.IntVal(0))
    if itp.decide(r < 0): itp.raise_py(ValueError)
    return Sym(r, INT)
  if name == "encode":
    f = z3.Function("utf8", z3.StringSort(), sort(BYTES)); g = z3.Function("utf8_inv", sort(BYTES), z3.StringSort())
    itp.assume(g(f(st)) == st)
    itp.assumptions.add("text encoding is an injective function with decoding as its inverse")
    return Sym(f(st), BYTES)
  if name in ("lower", "upper", "strip", "lstrip", "rstrip", "title"):
    f = z3.Function("str_" + name + "_" + str(len(args)), *([z3.StringSort()] * (1 + len(args))), z3.StringSort())
    return Sym(f(st, *[itp.to_term(a, STR) for a in args]), STR)
  if name in ("isdigit", "isdecimal", "isnumeric"):
    f = z3.Function("str_" + name, z3.StringSort(), z3.BoolSort())
    ascii_ = z3.InRe(st, z3.Star(z3.Range(chr(0), chr(127))))
    itp.assume(z3.Implies(z3.Or(ascii_, z3.InRe(st, z3.Plus(DIG))), f(st) == z3.InRe(st, z3.Plus(DIG))))
    return Sym(f(st), BOOL)
  if name == "removeprefix":
    p = itp.to_term(args[0], STR)
    return Sym(z3.If(z3.PrefixOf(p, st), z3.SubString(st, z3.Length(p), z3.Length(st) - z3.Length(p)), st), STR)
  if name == "format": return itp.fresh("fmt", STR)
  if name == "replace": 
    f = z3.Function("str_replace", *([z3.StringSort()] * 4))
    return Sym(f(st, *[itp.to_term(a, STR) for a in args]), STR)
  raise Unsupported("str." + name)

def bytes_method(itp, s, name, args, kwargs):
  st = itp.to_term(s, BYTES) if not isinstance(s, Sym) else s.t
  args = [itp.resolve(a) for a in args]
  if name in ("find", "index"):
    pat = itp.to_term(args[0], BYTES) if not isinstance(args[0], Sym) or args[0].ty is BYTES else z3.Unit(args[0].t)
    r = z3.IndexOf(st, pat, itp.to_term(args[1], INT) if len(args) > 1 else z3.IntVal(0))
    if name == "index" and itp.decide(r < 0): itp.raise_py(ValueError)
    return Sym(r, INT)
  if name == "startswith": return Sym(z3.PrefixOf(itp.to_term(args[0], BYTES), st), BOOL)
  if name == "endswith": return Sym(z3.SuffixOf(itp.to_term(args[0], BYTES), st), BOOL)
  if name == "decode":
    f = z3.Function("utf8_inv", sort(BYTES), z3.StringSort()); ok = z3.Function("utf8_ok", sort(BYTES), z3.BoolSort())
    if not itp.decide(ok(st)): itp.raise_py(UnicodeDecodeError)
    return Sym(f(st), STR)
  if name in ("tobytes", "toreadonly", "__bytes__"): return s
  if name == "release": return None
  m = itp.models.get("bytes." + name)
  if m: return m(itp, [s] + list(args), kwargs)
  raise Unsupported("bytes." + name)

# ------------------------------------------------------------------ container methods
def coll_kind(c):
  if isinstance(c, PyListC): return "list"
  if isinstance(c, PyDictC): return "map"
  return c.kind

def call_method(itp, recv, name, args, kwargs):
  recv = itp.resolve(recv)
  if isinstance(recv, LocRef):
    c = itp.content(recv)
    k = coll_kind(c)
    f = globals().get(f"{k}_{name}")
    if f is None: raise Unsupported(f"{k}.{name}")
    return f(itp, recv, c, args, kwargs)
  if isinstance(recv, ViewV):
    if recv.kind == "keys" and name in ("__iter__",): return IterV("iter", [recv])
    if name in ("isdisjoint",): return call_method(itp, as_set_value(itp, recv), name, args, kwargs)
    raise Unsupported("view." + name)
  if isinstance(recv, str) or (isinstance(recv, Sym) and recv.ty is STR): return str_method(itp, recv, name, args, kwargs)
  if isinstance(recv, (bytes, bytearray)) or (isinstance(recv, Sym) and recv.ty is BYTES): return bytes_method(itp, recv, name, args, kwargs)
  if isinstance(recv, tuple):
    if name == "index":
      for i, x in enumerate(recv):
        if itp.decide(itp.bz(itp.eq(x, args[0]))): return i
      itp.raise_py(ValueError)
    if name == "count": return sum(1 for x in recv if itp.decide(itp.bz(itp.eq(x, args[0]))))
  if isinstance(recv, int) and name == "to_bytes": return recv.to_bytes(*args, **kwargs)
  if isinstance(recv, Sym) and recv.ty is REAL and name == "is_integer": return Sym(z3.IsInt(recv.t), BOOL)
  if isinstance(recv, (int, float)) and name in ("is_integer", "bit_length"): return getattr(recv, name)()
  raise Unsupported(f"{recv!r}.{name}")

def sym_attr(itp, v, name):
  if isinstance(v, Sym) and v.ty in (INT, REAL, BOOL) or isinstance(v, (int, float)):
    if name == "real": return v
    if name in ("is_integer", "to_bytes", "bit_length"): return BuiltinMethod(v, name)
    itp.raise_py(AttributeError, name)
  if isinstance(v, Sym) and v.ty.kind in ("str", "bytes", "seq") or isinstance(v, (str, bytes, tuple, ViewV)):
    m = itp.attr_models.get(("seq", name)) if isinstance(v, Sym) else None
    if m: return m(itp, v)
    if isinstance(v, (bytes,)) or (isinstance(v, Sym) and v.ty is BYTES):
      if name == "nbytes": return length(itp, v)
      if name == "readonly": return True
    return BuiltinMethod(v, name)
  if isinstance(v, IterV) or isinstance(v, GenV) or isinstance(v, RangeV):
    return BuiltinMethod(v, name)
  raise Unsupported(f"attribute {name} of {v!r}")

# sets
def set_typed(itp, recv, c, other_ty):
  if c.ty is None and other_ty is not None: return ContC("set", other_ty, empty_set(other_ty.args[0]))
  return c
def set_copy(itp, r, c, a, k):
  return LocRef(("cell", itp.alloc(ContC("set", c.ty, c.t))))
def set_add_m(itp, r, c, a, k): set_add(itp, r, a[0])
globals()["set_add__"] = None
def _set_add_method(itp, r, c, a, k): set_add(itp, r, a[0])
def set_discard(itp, r, c, a, k):
  if c.ty is None: return None
  t = try_term(itp, a[0], c.ty.args[0])
  if t is not None: itp.set_content(r, ContC("set", c.ty, z3.Store(c.t, t, z3.BoolVal(False))))
def set_remove(itp, r, c, a, k):
  if not itp.decide(T(contains(itp, r, a[0]))): itp.raise_py(KeyError)
  return set_discard(itp, r, itp.content(r), a, k)
def set_clear(itp, r, c, a, k):
  if c.ty is not None: itp.set_content(r, ContC("set", c.ty, empty_set(c.ty.args[0])))
def set_pop(itp, r, c, a, k):
  if c.ty is None or is_empty(itp, r): itp.raise_py(KeyError)
  x = itp.fresh_const("popped", sort(c.ty.args[0]))
  itp.assume(z3.Select(c.t, x))
  itp.set_content(r, ContC("set", c.ty, z3.Store(c.t, x, z3.BoolVal(False))))
  return itp.value_of(x, c.ty.args[0])
def _set2(itp, c, other):
  ty, t = as_set(itp, other, c.ty.args[0] if c.ty is not None else None)
  if ty is not None and c.ty is not None and ty is not c.ty: raise Unsupported(f"set operation {c.ty} / {ty}")
  return ty, t
def set_union_m(itp, c, others):
  ty, t = c.ty, c.t
  for o in others:
    oty, ot = _set2(itp, ContC("set", ty, t), o)
    if oty is None: continue
    if ty is None: ty, t = oty, ot
    else: t = set_union(itp, ty, t, ot)
  return ContC("set", ty, t)
def new_set_from(itp, c): return LocRef(("cell", itp.alloc(ContC("set", c.ty, c.t))))
def set_union__(itp, r, c, a, k): return new_set_from(itp, set_union_m(itp, c, a))
def set_update(itp, r, c, a, k): itp.set_content(r, set_union_m(itp, c, a))
def set_intersection(itp, r, c, a, k):
  ty, t = c.ty, c.t
  for o in a:
    oty, ot = _set2(itp, ContC("set", ty, t), o)
    if ty is None or oty is None: return LocRef(("cell", itp.alloc(ContC("set", ty or oty, empty_set((ty or oty).args[0]) if (ty or oty) is not None else None))))
    t = set_inter(itp, ty, t, ot)
  return new_set_from(itp, ContC("set", ty, t))
def set_difference(itp, r, c, a, k):
  ty, t = c.ty, c.t
  for o in a:
    oty, ot = _set2(itp, ContC("set", ty, t), o)
    if ty is None or oty is None: continue
    t = set_diff(itp, ty, t, ot)
  return new_set_from(itp, ContC("set", ty, t))
def set_difference_update(itp, r, c, a, k): itp.set_content(r, itp.content(set_difference(itp, r, c, a, k)))
def set_intersection_update(itp, r, c, a, k): itp.set_content(r, itp.content(set_intersection(itp, r, c, a, k)))
def set_symmetric_difference(itp, r, c, a, k):
  x = set_difference(itp, r, c, a, k)
  ty, t = as_set(itp, a[0], c.ty.args[0] if c.ty is not None else None)
  o = LocRef(("cell", itp.alloc(ContC("set", ty, t))))
  y = set_difference(itp, o, itp.content(o), [r], k)
  return new_set_from(itp, set_union_m(itp, itp.content(x), [y]))
def set_issubset(itp, r, c, a, k):
  if c.ty is None: return True
  d = set_difference(itp, r, c, a, k)
  return is_empty(itp, d)
def set_issuperset(itp, r, c, a, k):
  s = as_set_loc(itp, a[0])
  return set_issubset(itp, s, itp.content(s), [r], k)
def as_set_loc(itp, v):
  v = itp.resolve(v)
  if isinstance(v, LocRef) and isinstance(itp.content(v), ContC) and itp.content(v).kind == "set": return v
  return build_set(itp, v)
def set_isdisjoint(itp, r, c, a, k):
  if c.ty is None: return True
  return is_empty(itp, set_intersection(itp, r, c, a, k))

# maps
def to_pydict_or_map(itp, r, c, key):
  pass
def map_get(itp, r, c, a, k):
  d = a[1] if len(a) > 1 else k.get("default")
  try: return getitem(itp, r, a[0])
  except PyRaise as e:
    if isinstance(e.value, ExcV) and e.value.py is KeyError: return d
    raise
def map_pop(itp, r, c, a, k):
  has_default = len(a) > 1
  key = a[0]
  if isinstance(c, PyDictC):
    for kk in c.d:
      e = itp.eq(key, itp.unkey(kk))
      if e is True or (e is not False and itp.decide(e)):
        v = c.d[kk]
        itp.set_content(r, PyDictC({x: y for x, y in c.d.items() if x is not kk}))
        return v
    if has_default: return a[1]
    raise PyRaise(ExcV(KeyError, (key,)))
  if c.ty is None:
    if has_default: return a[1]
    raise PyRaise(ExcV(KeyError, (key,)))
  if isinstance(key, Sym) and key.ty.kind == "union" and c.ty.args[0].kind != "union": key = itp.resolve(key)
  kt = try_term(itp, key, c.ty.args[0])
  if kt is None or not itp.decide(z3.Select(m_dom(c.ty, c.t), kt)):
    if has_default: return a[1]
    raise PyRaise(ExcV(KeyError, (key,)))
  vt = c.ty.args[1]
  t = z3.Select(m_val(c.ty, c.t), kt)
  itp.kill_aliases(itp.norm(r), kt) if (is_container(vt) or rec_mutable(vt)) else None
  itp.set_content(r, ContC("map", c.ty, mk(c.ty, z3.Store(m_dom(c.ty, c.t), kt, z3.BoolVal(False)), m_val(c.ty, c.t))))
  return itp.value_of(t, vt)
def map_popitem(itp, r, c, a, k):
  if isinstance(c, PyDictC):
    if not c.d: itp.raise_py(KeyError)
    kk = list(c.d)[-1]; v = c.d[kk]
    itp.set_content(r, PyDictC({x: y for x, y in c.d.items() if x is not kk}))
    return (itp.unkey(kk), v)
  raise Unsupported("popitem")
def map_setdefault(itp, r, c, a, k):
  d = a[1] if len(a) > 1 else None
  ky = itp.deref(a[0])
  if isinstance(ky, Sym) and ky.ty.kind == "union" and not (isinstance(c, ContC) and c.ty is not None and c.ty.args[0].kind == "union"): a = [itp.resolve(ky)] + list(a[1:])
  try: return getitem(itp, r, a[0])
  except PyRaise as e:
    if not (isinstance(e.value, ExcV) and e.value.py is KeyError): raise
  setitem(itp, r, a[0], d)
  return getitem(itp, r, a[0])
def map_keys(itp, r, c, a, k): return ViewV(r, "keys")
def map_values(itp, r, c, a, k): return ViewV(r, "values")
def map_items(itp, r, c, a, k): return ViewV(r, "items")
def map_copy(itp, r, c, a, k):
  if isinstance(c, PyDictC): return itp.new_dict(c.d)
  if c.ty is None: return itp.new_dict({})
  return itp.new_cont("map", c.ty, c.t)
def map_clear(itp, r, c, a, k):
  if isinstance(c, PyDictC): return itp.set_content(r, PyDictC({}))
  if c.ty is None: return
  itp.kill_aliases(itp.norm(r))
  itp.set_content(r, ContC("map", c.ty, mk(c.ty, empty_set(c.ty.args[0]), m_val(c.ty, c.t))))
def map_update(itp, r, c, a, k):
  for x in a: dict_update(itp, r, x)
  for kk, v in k.items(): setitem(itp, r, kk, v)

# lists
def list_append(itp, r, c, a, k):
  v = a[0]
  if isinstance(c, PyListC): return itp.set_content(r, PyListC(c.items + (v,)))
  if c.ty is None:
    return itp.set_content(r, PyListC((v,)))
  t = itp.to_term(v, c.ty.args[0])
  n = l_len(c.ty, c.t)
  itp.set_content(r, ContC("list", c.ty, mk(c.ty, z3.simplify(n + 1), z3.Store(l_arr(c.ty, c.t), n, t))))
  if is_container(c.ty.args[0]) or rec_mutable(c.ty.args[0]):
    nl = itp.norm(r); itp.adopt(v, LocRef(nl.root, nl.path + (("k", n),)))
def list_appendleft(itp, r, c, a, k): return list_insert(itp, r, c, [0, a[0]], k)
def list_popleft(itp, r, c, a, k): return list_pop(itp, r, c, [0], k)
def list_extend(itp, r, c, a, k):
  segs = segments(itp, a[0])
  if all(isinstance(s, list) for s in segs):
    for s in segs:
      for x in s: list_append(itp, r, itp.content(r), [x], {})
    return
  n = build_list(itp, IterV("chain", [r, a[0]]))
  itp.set_content(r, itp.content(n))
def shifted(itp, ty, arr, at, by):
  """array B with B[i] = arr[i] for i < at, arr[i - by] for i >= at (+max(by,0))"""
  B = itp.fresh_const("shift", arr.sort()); i = z3.Int("i!sh")
  if by > 0:
    itp.assume(mk_forall([i], z3.Select(B, i) == z3.If(i < at, z3.Select(arr, i), z3.Select(arr, i - 1)), [[z3.Select(B, i)]]))
    itp.assume(mk_forall([i], z3.If(i < at, z3.Select(B, i) == z3.Select(arr, i), z3.Select(B, i + 1) == z3.Select(arr, i)), [[z3.Select(arr, i)]]))
  else:
    itp.assume(mk_forall([i], z3.Select(B, i) == z3.If(i < at, z3.Select(arr, i), z3.Select(arr, i + 1)), [[z3.Select(B, i)]]))
    itp.assume(mk_forall([i], z3.And(z3.Implies(i < at, z3.Select(B, i) == z3.Select(arr, i)), z3.Implies(i > at, z3.Select(B, i - 1) == z3.Select(arr, i))), [[z3.Select(arr, i)]]))
  return B
def list_insert(itp, r, c, a, k):
  i, v = a
  if isinstance(c, PyListC) and isinstance(i, int):
    items = list(c.items); items.insert(i, v)
    return itp.set_content(r, PyListC(items))
  if isinstance(c, PyListC):
    if not c.items: return itp.set_content(r, PyListC((v,)))
    retype(itp, r, LIST(UNION(itp.type_of(r).args[0], itp.type_of(v)))); c = itp.content(r)
  if c.ty is None: return itp.set_content(r, PyListC((v,)))
  n = l_len(c.ty, c.t)
  it = itp.to_term(i, INT)
  it = z3.simplify(z3.If(it < 0, z3.If(it + n < 0, z3.IntVal(0), it + n), z3.If(it > n, n, it)))
  B = shifted(itp, c.ty, l_arr(c.ty, c.t), it, 1)
  itp.set_content(r, ContC("list", c.ty, mk(c.ty, z3.simplify(n + 1), z3.Store(B, it, itp.to_term(v, c.ty.args[0])))))
def list_pop(itp, r, c, a, k):
  i = a[0] if a else -1
  if isinstance(c, PyListC):
    j = norm_index(itp, i, len(c.items)) if c.items else itp.raise_py(IndexError)
    if isinstance(j, int):
      itp.set_content(r, PyListC(c.items[:j] + c.items[j + 1:]))
      return c.items[j]
    for q in range(len(c.items)):
      if q == len(c.items) - 1 or itp.decide(j == q):
        itp.set_content(r, PyListC(c.items[:q] + c.items[q + 1:]))
        return c.items[q]
  if c.ty is None: itp.raise_py(IndexError)
  n = l_len(c.ty, c.t)
  if i == -1 and isinstance(i, int):
    if not itp.decide(n > 0): itp.raise_py(IndexError)
    v = z3.Select(l_arr(c.ty, c.t), n - 1)
    itp.set_content(r, ContC("list", c.ty, mk(c.ty, z3.simplify(n - 1), l_arr(c.ty, c.t))))
    return itp.value_of(v, c.ty.args[0])
  j = norm_index(itp, i, n)
  j = z3.IntVal(j) if isinstance(j, int) else j
  v = z3.Select(l_arr(c.ty, c.t), j)
  B = shifted(itp, c.ty, l_arr(c.ty, c.t), j, -1)
  itp.set_content(r, ContC("list", c.ty, mk(c.ty, z3.simplify(n - 1), B)))
  return itp.value_of(v, c.ty.args[0])
def list_clear(itp, r, c, a, k):
  if isinstance(c, PyListC): return itp.set_content(r, PyListC(()))
  if c.ty is None: return
  itp.set_content(r, ContC("list", c.ty, mk(c.ty, z3.IntVal(0), l_arr(c.ty, c.t))))
def list_copy(itp, r, c, a, k):
  if isinstance(c, PyListC): return itp.new_list(c.items)
  return itp.new_cont("list", c.ty, c.t)
def list_index(itp, r, c, a, k):
  if isinstance(c, PyListC): return call_method(itp, tuple(c.items), "index", a, k)
  if c.ty is None: itp.raise_py(ValueError)
  xt = itp.to_term(a[0], c.ty.args[0])
  if not itp.decide(T(exists_in_list(itp, c.ty, c.t, a[0]))): itp.raise_py(ValueError)
  w = itp.fresh_const("idx", z3.IntSort()); i = z3.Int("i!ix")
  arr, n = l_arr(c.ty, c.t), l_len(c.ty, c.t)
  itp.assume(z3.And(0 <= w, w < n, z3.Select(arr, w) == xt))
  itp.assume(mk_forall([i], z3.Implies(z3.And(0 <= i, i < w), z3.Select(arr, i) != xt), [z3.Select(arr, i)]))
  return Sym(w, INT)
def list_remove(itp, r, c, a, k):
  if isinstance(c, PyListC):
    for i, x in enumerate(c.items):
      e = eq_dispatch(itp, x, a[0])
      if e is True or (e is not False and itp.decide(T(e))):
        return itp.set_content(r, PyListC(c.items[:i] + c.items[i + 1:]))
    itp.raise_py(ValueError)
  i = list_index(itp, r, c, a, k)
  list_pop(itp, r, itp.content(r), [i], k)
def list_reverse(itp, r, c, a, k):
  if isinstance(c, PyListC): return itp.set_content(r, PyListC(c.items[::-1]))
  raise Unsupported("reverse")
def list_sort(itp, r, c, a, k):
  s = BUILTINS["sorted"](itp, [r], k)
  itp.set_content(r, itp.content(s))
def list_count(itp, r, c, a, k):
  raise Unsupported("list.count")

set_union_method = set_union__
_METHOD_OVERRIDES = {"set_add": _set_add_method, "set_union": set_union__}
_orig_call_method = call_method
def call_method(itp, recv, name, args, kwargs):
  recv = itp.resolve(recv)
  if isinstance(recv, LocRef):
    c = itp.content(recv)
    k = coll_kind(c)
    if isinstance(c, ContC) and c.kind == "rec": return itp.call(itp.getattr(Sym(c.t, c.ty), name), args, kwargs)
    f = _METHOD_OVERRIDES.get(f"{k}_{name}") or (globals().get(f"{k}_{name}") if name not in ("inter", "diff", "nonempty", "literal", "typed", "add_m") else None)
    if f is None:
      if k == "list" and name in ("tolist",): return recv
      raise Unsupported(f"{k}.{name}")
    if isinstance(c, ContC) and c.frozen and name in MUTATORS: raise Unsupported("mutation of a snapshot")
    return f(itp, recv, c, args, kwargs)
  return _orig_call_method(itp, recv, name, args, kwargs)
MUTATORS = {"add", "discard", "remove", "clear", "pop", "update", "append", "extend", "insert", "setdefault", "difference_update", "intersection_update", "popleft", "appendleft", "sort", "reverse"}

# ------------------------------------------------------------------ builtins
def b_len(itp, a, k): return length(itp, a[0])
def b_range(itp, a, k):
  a = [itp.resolve(x) for x in a]
  if len(a) == 1: return RangeV(0, a[0], 1)
  if len(a) == 2: return RangeV(a[0], a[1], 1)
  return RangeV(*a)
def quantified(itp, v, want_all):
  segs = segments(itp, v)
  res = []
  for s in segs:
    if isinstance(s, list):
      for x in s:
        t = itp.truth(x)
        if t != want_all: return not want_all
    else:
      ty, term = seg_term(itp, s)
      # truth value of an element
      cases, excs, axioms, c0 = pure_eval(itp, s.b, s.guard, lambda: itp.truth(TermV(ty, term)))
      cond = itp.bz(itp.disj([c if o.value else False for c, o in cases]))
      if len(cases) == 1: cond = z3.BoolVal(bool(cases[0][1].value))
      bad = z3.Not(cond) if want_all else cond
      some = itp.fresh_const("some", z3.BoolSort()); w = itp.fresh_const("wit", s.b.sort())
      itp.assume(z3.Implies(some, z3.substitute(z3.And(s.guard, bad), (s.b, w))))
      itp.assume(z3.Implies(z3.Not(some), mk_forall([s.b], z3.Implies(s.guard, z3.Not(bad)), [[p] for p in s.pats])))
      if itp.decide(some): return not want_all
  return want_all
def b_any(itp, a, k): return quantified(itp, a[0], False)
def b_all(itp, a, k): return quantified(itp, a[0], True)
def b_next(itp, a, k):
  v = itp.resolve(a[0])
  if isinstance(v, ObjRef): return itp.call(itp.getattr(v, "__next__"))
  segs = segments(itp, v)
  for s in segs:
    if isinstance(s, list):
      if s: return s[0]
      continue
    some = itp.fresh_const("hasnext", z3.BoolSort()); w = itp.fresh_const("nx", s.b.sort())
    itp.assume(z3.Implies(some, z3.substitute(s.guard, (s.b, w))))
    itp.assume(z3.Implies(z3.Not(some), mk_forall([s.b], z3.Not(s.guard), [[p] for p in s.pats])))
    if s.kind == "list": itp.assume(z3.Implies(some, mk_forall([s.b], z3.Implies(s.guard, w <= s.b), [[p] for p in s.pats])))
    if itp.decide(some): return subst_value(itp, s.value, s.b, w)
  if len(a) > 1: return a[1]
  itp.raise_py(StopIteration)
def minmax(itp, a, k, is_min):
  key = k.get("key")
  if len(a) > 1: segs = [list(a)]
  else: segs = segments(itp, a[0])
  kf = (lambda x: itp.call(key, [x])) if key is not None else (lambda x: x)
  cands = []
  for s in segs:
    if isinstance(s, list): cands += s
    else:
      some = itp.fresh_const("hasmin", z3.BoolSort()); w = itp.fresh_const("mn", s.b.sort())
      itp.assume(z3.Implies(some, z3.substitute(s.guard, (s.b, w))))
      itp.assume(z3.Implies(z3.Not(some), mk_forall([s.b], z3.Not(s.guard), [[p] for p in s.pats])))
      if not itp.decide(some): continue
      ty, term, icond, filtered = gen_elem(itp, s, lambda x: (True, kf(x)))
      less = term_order(itp, ty, term, z3.substitute(term, (s.b, w)), is_min)
      itp.assume(mk_forall([s.b], z3.Implies(s.guard, z3.Not(less)), [[p] for p in s.pats]))
      if s.kind == "list":
        eqt = term == z3.substitute(term, (s.b, w))
        itp.assume(mk_forall([s.b], z3.Implies(z3.And(s.guard, eqt), w <= s.b), [[p] for p in s.pats]))
      cands.append(subst_value(itp, s.value, s.b, w))
  if not cands:
    if "default" in k: return k["default"]
    itp.raise_py(ValueError, "min/max of an empty sequence")
  best = cands[0]
  for x in cands[1:]:
    kx, kb = itp.resolve(kf(x)), itp.resolve(kf(best))
    if key is None and is_num(kx) and is_num(kb) and (isinstance(kx, Sym) or isinstance(kb, Sym)) and not any(isinstance(q, float) and abs(q) == INF_F for q in (kx, kb)):
      ty = REAL if REAL in (num_ty(kx), num_ty(kb)) else INT
      p, q = itp.to_term(kx, ty), itp.to_term(kb, ty)
      best = Sym(z3.If(p < q, p, q) if is_min else z3.If(p > q, p, q), ty)
      continue
    if itp.truth(itp.boolv(order(itp, "Lt" if is_min else "Gt", kx, kb))): best = x
  return best
def term_order(itp, ty, a, b, lt):
  """a < b (or > when not lt) on key terms"""
  if ty.kind in ("int", "real"): return a < b if lt else a > b
  if ty.kind == "bool": return z3.And(z3.Not(a), b) if lt else z3.And(a, z3.Not(b))
  if ty.kind == "union":
    def rank(t):
      r = None
      out = z3.RealVal(0)
      isinf = z3.BoolVal(False)
      for i, x in enumerate(ty.args):
        if x.kind == "inf": isinf = u_is(ty, i, t)
        elif x.kind == "int": out = z3.If(u_is(ty, i, t), z3.ToReal(u_get(ty, i, t)), out)
        elif x.kind == "real": out = z3.If(u_is(ty, i, t), u_get(ty, i, t), out)
        else: raise Unsupported("ordering " + repr(ty))
      return isinf, out
    ia, va = rank(a); ib, vb = rank(b)
    l = z3.And(z3.Not(ia), z3.Or(ib, va < vb)); g = z3.And(z3.Not(ib), z3.Or(ia, va > vb))
    return l if lt else g
  if ty.kind == "tup":
    r = z3.BoolVal(False)
    for i in reversed(range(len(ty.args))):
      x, y = acc(sort(ty), 0, i, a), acc(sort(ty), 0, i, b)
      r = z3.Or(term_order(itp, ty.args[i], x, y, lt), z3.And(x == y, r))
    return r
  if ty is STR: return a < b if lt else b < a
  if ty.kind == "none": itp.raise_py(TypeError)
  raise Unsupported("ordering " + repr(ty))
def b_sum(itp, a, k):
  segs = segments(itp, a[0])
  r = a[1] if len(a) > 1 else 0
  for s in segs:
    if isinstance(s, list):
      for x in s: r = binop(itp, "Add", r, x)
    else:
      m = itp.ext_models.get("$sum")
      if m is None: raise Unsupported("sum over a symbolic iterable")
      r = binop(itp, "Add", r, m(itp, [s], {}))
  return r
def b_abs(itp, a, k):
  v = itp.resolve(a[0])
  if not isinstance(v, Sym): return abs(v)
  t = itp.to_term(v, num_ty(v))
  return Sym(z3.If(t < 0, -t, t), num_ty(v))
def b_round(itp, a, k):
  v = itp.resolve(a[0])
  if not isinstance(v, Sym): return round(v)
  if len(a) > 1: raise Unsupported("round digits")
  if num_ty(v) is INT: return v
  fl = z3.ToInt(v.t); fr = v.t - z3.ToReal(fl)
  half = z3.RealVal("1/2")
  return Sym(z3.If(fr < half, fl, z3.If(fr > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))), INT)
def b_divmod(itp, a, k): return (binop(itp, "FloorDiv", a[0], a[1]), binop(itp, "Mod", a[0], a[1]))
def b_isinstance(itp, a, k): return isinstance_(itp, a[0], a[1])
def b_sorted(itp, a, k):
  segs = segments(itp, a[0])
  rev = k.get("reverse", False)
  key = k.get("key")
  kf = (lambda x: itp.call(key, [x])) if key is not None else (lambda x: x)
  if not isinstance(rev, bool): raise Unsupported("sorted reverse")
  if all(isinstance(s, list) for s in segs):
    items = [x for s in segs for x in s]
    if len(items) <= 4:
      out = []
      for x in items:
        kx = kf(x)
        i = len(out)
        while i > 0 and itp.truth(itp.boolv(order(itp, "Gt" if rev else "Lt", kx, kf(out[i - 1])))): i -= 1
        out.insert(i, x)
      return itp.new_list(out)
  src = build_list(itp, a[0])
  c = itp.content(src)
  if not isinstance(c, ContC): 
    retype(itp, src, LIST(UNION(*[itp.type_of(x) for x in c.items]))); c = itp.content(src)
  ty = c.ty
  n, arr = l_len(ty, c.t), l_arr(ty, c.t)
  out = itp.fresh_const("sorted", arr.sort())
  p = itp.fresh_fn("perm", z3.IntSort(), z3.IntSort()); q = itp.fresh_fn("permi", z3.IntSort(), z3.IntSort())
  i, j = z3.Int("i!so"), z3.Int("j!so")
  rng = lambda x: z3.And(0 <= x, x < n)
  itp.assume(mk_forall([i], z3.Implies(rng(i), z3.And(rng(p(i)), q(p(i)) == i, z3.Select(out, i) == z3.Select(arr, p(i)))), [[z3.Select(out, i)], [p(i)]]))
  itp.assume(mk_forall([i], z3.Implies(rng(i), z3.And(rng(q(i)), p(q(i)) == i, z3.Select(out, q(i)) == z3.Select(arr, i))), [[z3.Select(arr, i)], [q(i)]]))
  b = itp.fresh_const("sb", z3.IntSort())
  seg = SymIter(b, INT, rng(b), itp.value_of(z3.Select(out, b), ty.args[0]), "list", [z3.Select(out, b)], size=n)
  kty, kt, _, _ = gen_elem(itp, seg, lambda x: (True, kf(x)))
  ki, kj = z3.substitute(kt, (b, i)), z3.substitute(kt, (b, j))
  bad = term_order(itp, kty, kj, ki, not rev)
  itp.assume(mk_forall([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j), z3.And(z3.Not(bad), z3.Implies(ki == kj, p(i) < p(j)))), [[z3.Select(out, i), z3.Select(out, j)]]))
  return itp.new_cont("list", ty, mk(ty, n, out))
def b_hasattr(itp, a, k):
  v = itp.deref(a[0])
  try: itp.getattr(v, a[1]); return True
  except PyRaise as e:
    if isinstance(e.value, ExcV) and e.value.py is AttributeError: return False
    raise
def b_getattr(itp, a, k):
  try: return itp.getattr(a[0], a[1])
  except PyRaise as e:
    if len(a) > 2 and isinstance(e.value, ExcV) and e.value.py is AttributeError: return a[2]
    raise
def b_callable(itp, a, k):
  v = itp.resolve(a[0])
  if isinstance(v, Sym) and v.ty.kind == "any": return (v.ty.args[0], "__call__") in itp.any_methods
  if isinstance(v, ObjRef): return bool(itp.class_member(itp.st.cells[v.addr].cls, "__call__"))
  return isinstance(v, (FnV, BoundV, NativeV, ClassV, TypeV, BuiltinMethod))
def b_bool(itp, a, k): return itp.truth(a[0])
def b_iter(itp, a, k): return IterV("iter", a)
def b_print(itp, a, k): return None
def b_id(itp, a, k): return itp.fresh("id", INT)
def b_hash(itp, a, k): return itp.fresh("hash", INT)
def b_repr(itp, a, k): return itp.fresh("repr", STR)
def b_chr(itp, a, k): return itp.fresh("chr", STR)
def b_vars(itp, a, k): return itp.getattr(a[0], "__dict__")
def b_issubclass(itp, a, k): return itp.subclass_of(itp.deref(a[0]), itp.deref(a[1]))

BUILTINS = {"len": b_len, "range": b_range, "any": b_any, "all": b_all, "next": b_next, "min": lambda i, a, k: minmax(i, a, k, True), "max": lambda i, a, k: minmax(i, a, k, False),
  "sum": b_sum, "abs": b_abs, "round": b_round, "divmod": b_divmod, "isinstance": b_isinstance, "sorted": b_sorted, "hasattr": b_hasattr, "getattr": b_getattr, "setattr": lambda i, a, k: i.setattr(a[0], a[1], a[2]),
  "iter": b_iter, "enumerate": lambda i, a, k: IterV("enumerate", a), "zip": lambda i, a, k: IterV("zip", a), "reversed": lambda i, a, k: IterV("reversed", a), "map": lambda i, a, k: IterV("map", a),
  "filter": lambda i, a, k: IterV("filter", a), "print": b_print, "id": b_id, "hash": b_hash, "repr": b_repr, "callable": b_callable, "pow": lambda i, a, k: binop(i, "Pow", a[0], a[1]), "chr": b_chr, "vars": b_vars, "issubclass": b_issubclass}

def isinstance_(itp, v, c):
  c = itp.deref(c)
  if isinstance(c, tuple): return any(isinstance_(itp, v, x) for x in c)
  v = itp.resolve(v)
  if isinstance(c, ExtV) and c.path in ("typing.Any",): return True
  if isinstance(v, Sym):
    k = v.ty.kind
    if k == "any":
      m = itp.any_methods.get((v.ty.args[0], "__isinstance__"))
      if m: return itp.truth(m(itp, v, [c], {}))
      raise Unsupported(f"isinstance of opaque {v.ty}")
    if isinstance(c, TypeV):
      return {"int": ("int", "bool"), "str": ("str",), "float": ("real",), "bool": ("bool",), "bytes": ("bytes",), "object": (k,)}.get(c.name, ()).__contains__(k)
    if k == "ref": return itp.subclass_of(itp.cls_by_qual(v.ty.args[0]), c)
    if k == "rec": return itp.subclass_of(itp.cls_by_qual(rec_name(v.ty)), c)
    if k == "enum": return itp.subclass_of(itp.cls_by_qual(v.ty.args[0]), c)
    return False
  if isinstance(v, ObjRef): return itp.subclass_of(itp.st.cells[v.addr].cls, c)
  if isinstance(v, EnumV): return itp.subclass_of(v.cls, c) or (isinstance(c, TypeV) and c.name in ("str", "int") and isinstance(v.value, {"str": str, "int": int}[c.name]) and any(isinstance(b, (ExtV, TypeV)) and (getattr(b, "path", "") in ("enum.StrEnum", "enum.IntEnum") or getattr(b, "name", "") == c.name) for b in itp.ext_bases(v.cls)))
  if isinstance(v, ExcV): return isinstance(c, ExcCls) and issubclass(v.py, c.py)
  if isinstance(v, LocRef):
    cc = itp.content(v)
    if isinstance(cc, ContC) and cc.kind == "rec": return itp.subclass_of(itp.cls_by_qual(rec_name(cc.ty)), c)
    k = coll_kind(cc)
    if isinstance(c, TypeV): return c.name == {"list": "list", "map": "dict", "set": "set"}[k] or c.name == "object"
    if isinstance(c, ExtV): return c.path.split(".")[-1] in {"list": ("List", "Sequence", "Iterable"), "map": ("Dict", "Mapping", "Iterable"), "set": ("Set", "Iterable")}[k]
    return False
  if isinstance(v, (FnV, BoundV, NativeV, CoroV, CtxT)): return False
  if isinstance(c, TypeV):
    py = {"memoryview": memoryview, "NoneType": type(None)}.get(c.name) or getattr(_b, c.name)
    return isinstance(v, py)
  return False
CtxT = I.CtxMgrV if hasattr(I, "CtxMgrV") else ()

def construct_type(itp, name, args, kwargs):
  if name == "set" or name == "frozenset":
    if not args: return itp.new_set()
    v = itp.resolve(args[0])
    if isinstance(v, LocRef):
      c = itp.content(v)
      if isinstance(c, ContC) and c.kind == "set": return new_set_from(itp, c)
    ty_t = None
    return build_set(itp, v)
  if name == "list":
    return build_list(itp, args[0]) if args else itp.new_list(())
  if name == "tuple":
    if not args: return ()
    v = itp.resolve(args[0])
    if isinstance(v, tuple): return v
    return tuple(concrete_items(itp, v))
  if name == "dict":
    d = itp.new_dict({})
    if args:
      v = itp.resolve(args[0])
      if isinstance(v, LocRef):
        c = itp.content(v)
        if isinstance(c, PyDictC) or (isinstance(c, ContC) and c.kind == "map"): d = map_copy(itp, v, c, [], {})
        else: d = dict_from_segments(itp, segments(itp, v))
      else: d = dict_from_segments(itp, segments(itp, v))
    for k, v in kwargs.items(): setitem(itp, d, k, v)
    return d
  if name == "bool": return itp.boolv(itp.truth(args[0])) if args else False
  if name == "int":
    if not args: return 0
    v = itp.resolve(args[0])
    if isinstance(v, bool): return int(v)
    if isinstance(v, (int,)): return v
    if isinstance(v, (str, float, bytes)):
      try: return int(v, *args[1:])
      except ValueError: itp.raise_py(ValueError)
      except OverflowError: itp.raise_py(OverflowError)
    if isinstance(v, Sym):
      if v.ty in (INT, BOOL): return Sym(itp.to_term(v, INT), INT)
      if v.ty is REAL: return Sym(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)), INT)
      if v.ty is STR:
        int_facts(itp, v.t)
        if not itp.decide(INT_OK(v.t)): itp.raise_py(ValueError)
        return Sym(INT_VAL(v.t), INT)
      if v.ty.kind == "any":
        m = itp.any_methods.get((v.ty.args[0], "__int__"))
        if m: return m(itp, v, [], {})
    if v is None or isinstance(v, (LocRef, tuple)): itp.raise_py(TypeError)
    raise Unsupported(f"int({v!r})")
  if name == "float":
    if not args: return 0.0
    if "builtins.float" in itp.ext_models: return itp.ext_models["builtins.float"](itp, args, kwargs)
    v = itp.resolve(args[0])
    if isinstance(v, (int, float, str)):
      try: return float(v)
      except ValueError: itp.raise_py(ValueError)
    if isinstance(v, Sym):
      if v.ty in (INT, BOOL, REAL): return Sym(itp.to_term(v, REAL), REAL)
      if v.ty is STR:
        if not itp.decide(FLT_OK(v.t)): itp.raise_py(ValueError)
        return Sym(FLT_VAL(v.t), REAL)
      if v.ty.kind == "any":
        m = itp.any_methods.get((v.ty.args[0], "__float__"))
        if m: return m(itp, v, [], {})
    if v is None or isinstance(v, (LocRef, tuple)): itp.raise_py(TypeError)
    raise Unsupported(f"float({v!r})")
  if name == "str":
    if not args: return ""
    return str_of(itp, args[0])
  if name in ("bytes", "bytearray", "memoryview"):
    if not args: return b""
    v = itp.resolve(args[0])
    if isinstance(v, (bytes, bytearray)): return bytes(v)
    if isinstance(v, Sym) and v.ty is BYTES: return v
    if isinstance(v, int) and not isinstance(v, bool): return bytes(v)
    if isinstance(v, LocRef):
      c = itp.content(v)
      if isinstance(c, PyListC):
        if all(isinstance(x, int) for x in c.items): return bytes(c.items)
        us = [z3.Unit(itp.to_term(x, INT)) for x in c.items]
        return Sym(z3.Concat(*us) if len(us) > 1 else us[0], BYTES)
    if isinstance(v, Sym) and v.ty.kind == "any":
      m = itp.any_methods.get((v.ty.args[0], "__bytes__"))
      if m: return m(itp, v, [], {})
    raise Unsupported(f"{name}({v!r})")
  if name == "type":
    v = itp.deref(args[0])
    if isinstance(v, (ObjRef,)) or (isinstance(v, Sym) and v.ty.kind in ("ref", "rec")): return itp.class_of(v)
    if isinstance(v, ExcV): return ExcCls(v.py)
    v = itp.resolve(v)
    if isinstance(v, Sym) and v.ty.kind in ("int", "bool", "str", "real", "bytes"): return TypeV({"real": "float"}.get(v.ty.kind, v.ty.kind))
    if isinstance(v, LocRef) and coll_kind(itp.content(v)) in ("list", "map", "set"): return TypeV({"map": "dict"}.get(coll_kind(itp.content(v)), coll_kind(itp.content(v))))
    if v is None or isinstance(v, (int, str, bytes, float, tuple)): return TypeV(type(v).__name__)
    if isinstance(v, Sym) and v.ty.kind == "any" and (v.ty.args[0], "__type__") in itp.any_methods: return itp.any_methods[(v.ty.args[0], "__type__")](itp, v, [], {})
    raise Unsupported("type()")
  if name == "object": return itp.fresh("object", ANY("object"))
  raise Unsupported("constructor " + name)

def type_method(itp, tname_, name, args, kwargs):
  if tname_ == "dict" and name == "fromkeys":
    v = args[1] if len(args) > 1 else None
    g = segments(itp, args[0])
    d = itp.new_dict({})
    for s in g:
      if isinstance(s, list):
        for x in s: setitem(itp, d, x, v)
      else: raise Unsupported("dict.fromkeys")
    return d
  if tname_ + "." + name in itp.ext_models: return itp.ext_models[tname_ + "." + name](itp, args, kwargs)
  if tname_ == "int" and name == "from_bytes": 
    if isinstance(args[0], bytes): return int.from_bytes(*args, **kwargs)
    m = itp.ext_models.get("int.from_bytes")
    if m: return m(itp, args, kwargs)
  if tname_ == "object": 
    if name == "__setattr__": return itp.setattr_raw(args[0], args[1], args[2])
  if args: return call_method(itp, args[0], name, args[1:], kwargs)
  raise Unsupported(f"{tname_}.{name}")

def class_ext_method(itp, cls, name, inst):
  """methods inherited from external base classes"""
  for b in itp.ext_bases(cls):
    p = getattr(b, "path", None) or getattr(b, "name", None)
    m = itp.models.get(f"ext:{p}.{name}")
    if m is not None:
      if inst is None: return NativeV(lambda i, a, k, m=m: m(i, cls, a, k), name)
      return NativeV(lambda i, a, k, m=m: m(i, inst, a, k), name)
  if itp.is_model(cls):
    if name == "model_dump_json" and cls.qual + ".model_dump_json" in itp.models: return NativeV(lambda i, a, k: itp.models[cls.qual + ".model_dump_json"](i, [inst if inst is not None else cls] + list(a), k), name)
    f = {"model_dump": md_dump, "model_validate": md_validate, "model_validate_json": md_validate, "model_copy": md_copy, "model_construct": md_construct}.get(name)
    if f: return NativeV(lambda i, a, k: f(i, inst if inst is not None else cls, a, k), name)
    if name in ("model_fields",): return itp.new_dict({n: None for n, _, _ in itp.fields_of(cls)})
  return None
def md_dump(itp, v, a, k):
  v = itp.deref(v)
  if k.get("mode") == "json":
    d = md_dump(itp, v, a, {})
    out = {}
    for f, x in itp.content(d).d.items():
      m = itp.any_methods.get((x.ty.args[0], "__jsonable__")) if isinstance(x, Sym) and x.ty.kind == "any" else None
      out[f] = m(itp, x, [], {}) if m else x
    return itp.new_dict(out)
  if isinstance(v, ObjRef):
    out = {}
    for f, x in itp.st.cells[v.addr].fields.items():
      if isinstance(x, ObjRef) and itp.is_model(itp.class_of(x)): x = md_dump(itp, x, a, k)
      out[f] = x
    return itp.new_dict(out)
  if isinstance(v, Sym) and v.ty.kind == "rec": return itp.new_dict({f: itp.getattr(v, f) for f, _ in rec_fields(v.ty)})
  if isinstance(v, Sym) and v.ty.kind == "ref": return itp.new_dict({f: itp.getattr(v, f) for (q, f) in itp.ref_fields if q == v.ty.args[0] and not f.startswith("$")})
  raise Unsupported("model_dump")
def md_validate(itp, cls, a, k):
  m = itp.models.get(cls.qual + ".model_validate")
  if m: return m(itp, a, k)
  v = itp.resolve(a[0])
  if isinstance(v, LocRef) and isinstance(itp.content(v), PyDictC):
    d = itp.content(v).d
    o = itp.new_obj(cls, {})
    vals = {}
    for n, df, owner in itp.fields_of(cls):
      if n in d: vals[n] = d[n]
      elif df is not None: vals[n] = itp.ev_static(df, owner.module)
      else: raise PyRaise(ExcV(I.EXT_EXC["pydantic.ValidationError"], ()))
    itp.assumptions.add("pydantic validation accepts well-typed values unchanged")
    itp.st.cells[o.addr] = ObjC(cls, vals)
    return o
  if isinstance(v, ObjRef) and itp.class_of(v) is cls: return v
  if getattr(itp, "decode_any", None) is not None: return itp.decode_any(itp, cls, v)
  raise Unsupported("model_validate of a symbolic value")
def md_copy(itp, v, a, k):
  c = itp.st.cells[v.addr]
  f = dict(c.fields)
  if "update" in k: f.update(itp.content(k["update"]).d)
  return itp.new_obj(c.cls, f)
def md_construct(itp, cls, a, k): return itp.new_obj(cls, k)

def ctx_methods(itp, m, names):
  if isinstance(m, ObjRef): return itp.getattr(m, names[0]), itp.getattr(m, names[1])
  if isinstance(m, Sym):
    if m.ty.kind == "any":
      en, ex = itp.any_methods.get((m.ty.args[0], names[0])), itp.any_methods.get((m.ty.args[0], names[1]))
      if en is None: raise Unsupported(f"with {m.ty}")
      w = (lambda f: NativeV(lambda i, a, k: CoroV(lambda: f(i, m, a, k)) if "a" == names[0][2] else f(i, m, a, k)))
      return w(en), w(ex)
    return itp.getattr(m, names[0]), itp.getattr(m, names[1])
  raise Unsupported(f"with {m!r}")

# ------------------------------------------------------------------ external functions
def nop(itp, a, k): return None
def install(itp):
  E = itp.ext_models
  for lvl in ("debug", "info", "warning", "error", "exception", "critical"): E["logging." + lvl] = nop
  E["itertools.chain"] = lambda i, a, k: IterV("chain", a)
  E["copy.copy"] = x_copy
  E["copy.deepcopy"] = x_deepcopy
  E["collections.deque"] = lambda i, a, k: build_list(i, a[0]) if a else i.new_list(())
  E["math.floor"] = lambda i, a, k: m_floor(i, a[0])
  E["math.ceil"] = lambda i, a, k: m_ceil(i, a[0])
  E["math.isinf"] = lambda i, a, k: isinstance(i.resolve(a[0]), float) and abs(i.resolve(a[0])) == INF_F
  E["math.isnan"] = lambda i, a, k: isinstance(i.resolve(a[0]), float) and i.resolve(a[0]) != i.resolve(a[0])
  E["math.isfinite"] = lambda i, a, k: not isinstance(i.resolve(a[0]), float) or abs(i.resolve(a[0])) < INF_F
  E["math.trunc"] = lambda i, a, k: construct_type(i, "int", a[:1], {})
  E["re.compile"] = re_compile
  for m_ in ("match", "fullmatch", "search"): E["re." + m_] = (lambda m: lambda i, a, k: re_apply(i, re_compile(i, [a[0]] + list(a[2:]), k), m, a[1]))(m_)
  E["typing.cast"] = lambda i, a, k: a[1]
  E["typing.TypeVar"] = nop
  E["asyncio.Lock"] = lambda i, a, k: i.fresh("lock", ANY("lock"))
  itp.any_methods[("lock", "__aenter__")] = lambda i, s, a, k: i.yield_point("lock")
  itp.any_methods[("lock", "__aexit__")] = nop4
  E["asyncio.sleep"] = lambda i, a, k: CoroV(lambda: i.yield_point("sleep"))
def nop4(itp, s, a, k): return None
class RegexV:
  """a compiled regular expression with a known pattern"""
  def __init__(self, pattern, flags): self.pattern, self.flags = pattern, flags
  def method(self, name):
    if name == "pattern": return self.pattern
    if name in ("match", "fullmatch", "search"): return I.NativeV(lambda itp, a, k: re_apply(itp, self, name, a[0]), "re." + name)
    raise Unsupported("regex." + name)
def re_compile(itp, a, k):
  f = a[1] if len(a) > 1 else k.get("flags", 0)
  if isinstance(a[0], RegexV): return a[0]
  if not isinstance(a[0], str) or not isinstance(f, int): raise Unsupported("symbolic regular expression")
  return RegexV(a[0], f)
def re_apply(itp, r, name, s):
  from .regex import language, NoRegex
  s = itp.resolve(s)
  if isinstance(s, str): found = getattr(_re, name)(r.pattern, s, r.flags) is not None
  elif isinstance(s, Sym) and s.ty is STR:
    try: found = itp.decide(z3.InRe(s.t, language(r.pattern, r.flags, name)))
    except NoRegex as e: raise Unsupported("regular expression: " + str(e))
  elif isinstance(s, (Sym, int, float)) or s is None: itp.raise_py(TypeError)
  else: raise Unsupported("regex on " + repr(s))
  return itp.fresh("match", ANY("match")) if found else None
def m_floor(itp, v):
  v = itp.resolve(v)
  if not isinstance(v, Sym):
    import math
    return math.floor(v)
  return v if v.ty is INT else Sym(z3.ToInt(v.t), INT)
def m_ceil(itp, v):
  v = itp.resolve(v)
  if not isinstance(v, Sym):
    import math
    return math.ceil(v)
  return v if v.ty is INT else Sym(-z3.ToInt(-v.t), INT)
def x_copy(itp, a, k):
  v = itp.resolve(a[0])
  if isinstance(v, LocRef): return call_method(itp, v, "copy", [], {})
  if isinstance(v, ObjRef):
    c = itp.st.cells[v.addr]
    return itp.new_obj(c.cls, c.fields)
  return v
def x_deepcopy(itp, a, k):
  v = itp.deref(a[0])
  if isinstance(v, LocRef):
    c = itp.content(v)
    if isinstance(c, PyListC): return itp.new_list([x_deepcopy(itp, [x], {}) for x in c.items])
    if isinstance(c, PyDictC): return itp.new_dict({kk: x_deepcopy(itp, [x], {}) for kk, x in c.d.items()})
    if c.ty is None: return LocRef(("cell", itp.alloc(ContC(c.kind, None, None))))
    return itp.new_cont(c.kind, c.ty, c.t)
  if isinstance(v, ObjRef):
    c = itp.st.cells[v.addr]
    return itp.new_obj(c.cls, {f: x_deepcopy(itp, [x], {}) for f, x in c.fields.items()})
  if isinstance(v, tuple): return tuple(x_deepcopy(itp, [x], {}) for x in v)
  return v
