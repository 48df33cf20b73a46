"""Types and their SMT sorts."""
import z3

class Ty:
  _cache = {}
  __slots__ = ("kind", "args", "_sort", "extra", "key")
  def __new__(cls, kind, *args, extra=None):
    key = (kind,) + tuple(a.key if isinstance(a, Ty) else a for a in args)
    t = cls._cache.get(key)
    if t is None:
      t = object.__new__(cls)
      t.kind, t.args, t._sort, t.extra, t.key = kind, args, None, extra, key
      cls._cache[key] = t
    return t
  def __repr__(self): return self.kind + ("(" + ",".join(map(repr, self.args)) + ")" if self.args else "")

INT, BOOL, REAL, STR, NONE, INF, BYTES = (Ty(k) for k in ("int", "bool", "real", "str", "none", "inf", "bytes"))
def SET(t): return Ty("set", t)
def MAP(k, v): return Ty("map", k, v)
def LIST(t): return Ty("list", t)       # length + array
def SEQ(t): return Ty("seq", t)         # SMT sequence (immutable: samples)
def TUP(*ts): return Ty("tup", *ts)
def REC(name, /, **fields): return Ty("rec", name, *(x for f in fields.items() for x in f))
def REF(cls): return Ty("ref", cls)
def ANY(name): return Ty("any", name)
def ENUM(cls, *members): return Ty("enum", cls, *members)
def UNION(*ts):
  flat = []
  for t in ts:
    for u in (t.args if t.kind == "union" else (t,)):
      if u not in flat: flat.append(u)
  return flat[0] if len(flat) == 1 else Ty("union", *flat)
def OPT(t): return UNION(NONE, t)

def rec_name(t): return t.args[0]
def rec_fields(t): return [(t.args[i], t.args[i + 1]) for i in range(1, len(t.args), 2)]
def is_container(t): return t is not None and t.kind in ("set", "map", "list")

def _san(s):
  return "".join(c if c.isalnum() else "_" for c in str(s))

def tname(t):
  return _san(repr(t))

def sort(t):
  if t._sort is None: t._sort = _mk_sort(t)
  return t._sort

def _mk_sort(t):
  k = t.kind
  if k == "int": return z3.IntSort()
  if k == "bool": return z3.BoolSort()
  if k == "real": return z3.RealSort()
  if k == "str": return z3.StringSort()
  if k == "bytes": return z3.SeqSort(z3.IntSort())
  if k == "seq": return z3.SeqSort(sort(t.args[0]))
  if k == "set": return z3.ArraySort(sort(t.args[0]), z3.BoolSort())
  if k == "ref": return z3.DeclareSort("Ref_" + _san(t.args[0]))
  if k == "any": return z3.DeclareSort("Any_" + _san(t.args[0]))
  if k == "enum":
    d = z3.Datatype("Enum_" + _san(t.args[0]))
    for m in t.args[1:]: d.declare(_san(t.args[0]) + "_" + m)
    return d.create()
  n = tname(t)
  if k in ("none", "inf"):
    d = z3.Datatype("U_" + n); d.declare("mk_" + n); return d.create()
  if k == "map":
    d = z3.Datatype("M_" + n)
    d.declare("mk_" + n, ("dom_" + n, z3.ArraySort(sort(t.args[0]), z3.BoolSort())), ("val_" + n, z3.ArraySort(sort(t.args[0]), sort(t.args[1]))))
    return d.create()
  if k == "list":
    d = z3.Datatype("L_" + n)
    d.declare("mk_" + n, ("len_" + n, z3.IntSort()), ("arr_" + n, z3.ArraySort(z3.IntSort(), sort(t.args[0]))))
    return d.create()
  if k == "tup":
    d = z3.Datatype("T_" + n)
    d.declare("mk_" + n, *((f"t{i}_" + n, sort(a)) for i, a in enumerate(t.args)))
    return d.create()
  if k == "rec":
    d = z3.Datatype("R_" + n)
    d.declare("mk_" + n, *((f"{f}_" + n, sort(a)) for f, a in rec_fields(t)))
    return d.create()
  if k == "union":
    d = z3.Datatype("X_" + n)
    for i, a in enumerate(t.args):
      if a.kind in ("none", "inf"): d.declare(f"c{i}_" + n)
      else: d.declare(f"c{i}_" + n, (f"v{i}_" + n, sort(a)))
    return d.create()
  raise NotImplementedError(k)

def acc(s, ci, i, t):
  """accessor i of constructor ci of datatype sort s applied to t, unfolding constructor applications"""
  if z3.is_app(t) and t.decl().eq(s.constructor(ci)): return t.arg(i)
  return s.accessor(ci, i)(t)

def mk(ty, *args): return sort(ty).constructor(0)(*args)
def m_dom(ty, t): return acc(sort(ty), 0, 0, t)
def m_val(ty, t): return acc(sort(ty), 0, 1, t)
def l_len(ty, t): return acc(sort(ty), 0, 0, t)
def l_arr(ty, t): return acc(sort(ty), 0, 1, t)
def r_get(ty, f, t):
  for i, (n, ft) in enumerate(rec_fields(ty)):
    if n == f: return acc(sort(ty), 0, i, t)
  raise KeyError(f)
def r_field_ty(ty, f):
  for n, ft in rec_fields(ty):
    if n == f: return ft
  return None
def r_set(ty, f, t, v):
  return mk(ty, *((v if n == f else r_get(ty, n, t)) for n, _ in rec_fields(ty)))
def enum_const(ty, m): return sort(ty).constructor(ty.args[1:].index(m))()

def u_alts(ty): return list(ty.args)
def u_is(ty, i, t):
  s = sort(ty)
  if z3.is_app(t):
    for j in range(s.num_constructors()):
      if t.decl().eq(s.constructor(j)): return z3.BoolVal(i == j)
  return s.recognizer(i)(t)
def u_get(ty, i, t): return acc(sort(ty), i, 0, t)
def u_mk(ty, i, v=None):
  c = sort(ty).constructor(i)
  return c(v) if ty.args[i].kind not in ("none", "inf") else c()

def empty_set(t): return z3.K(sort(t), z3.BoolVal(False))
