"""Symbolic interpreter for the Python subset; one run of it is one path (see explore)."""
import ast, asyncio, builtins as _b
import z3
from .core import *
from .src import Loader

class ValidationErrorStandIn(ValueError): pass
class ConnectionClosedStandIn(Exception): pass
class StructErrorStandIn(Exception): pass
class VisitErrorStandIn(Exception): pass
class JSONDecodeErrorStandIn(ValueError): pass
class LarkErrorStandIn(Exception): pass

EXT_EXC = {
  "asyncio.CancelledError": asyncio.CancelledError, "asyncio.TimeoutError": TimeoutError, "asyncio.InvalidStateError": asyncio.InvalidStateError,
  "asyncio.IncompleteReadError": asyncio.IncompleteReadError, "pydantic.ValidationError": ValidationErrorStandIn, "asyncio.QueueEmpty": asyncio.QueueEmpty,
  "websockets.ConnectionClosed": ConnectionClosedStandIn, "struct.error": StructErrorStandIn, "json.JSONDecodeError": JSONDecodeErrorStandIn,
  "lark.exceptions.VisitError": VisitErrorStandIn, "lark.VisitError": VisitErrorStandIn, "lark.exceptions.LarkError": VisitErrorStandIn,
  "asyncio.exceptions.CancelledError": asyncio.CancelledError,
}
BUILTIN_TYPES = {"int", "str", "float", "bool", "bytes", "bytearray", "memoryview", "list", "tuple", "dict", "set", "frozenset", "type", "object", "complex"}

def is_exc_type(x): return isinstance(x, type) and issubclass(x, BaseException)

class Interp:
  def __init__(self, loader=None, solver=None):
    self.loader = loader or Loader()
    self.solver = solver or Solver()
    self.models = {}        # qualified name -> fn(interp, args, kwargs)
    self.ext_models = {}    # dotted external name -> fn(interp, args, kwargs)
    self.rec_types = {}     # class qual -> REC type
    self.ref_fields = {}    # (class qual, field) -> type
    self.enum_types = {}    # class qual -> ENUM type
    self.any_methods = {}   # (any name, method) -> fn(interp, self, args, kwargs)
    self.attr_sets = {}     # (any name, attr) -> fn(interp, self, value)
    self.attr_models = {}   # (any/ref name, attr) -> fn(interp, self)
    self.enum_meta = {}
    self.full_candidates, self.skipped_candidates = True, 0
    self.loop_hints = []    # fn(loopctx) -> [(name, formula)]
    self.yield_hook = None
    self.obligations = []   # recorded by check()
    self.quiet = 0
    self.st = State()
    self.tape, self.pos, self.pending = [], 0, []
    self.max_paths = 4000
    self.depth = 0
    self.with_yield = []    # stack of generator hooks
    self.trace = []
    self.unsupported_notes = []
    self.classes = {}
    self.live_iter = []
    self.assumptions = set()
    self.fn_used = set()
    self.loop_cache, self.loops_cut, self.debug = {}, [], False
    from . import models as M
    self.M = M
    M.install(self)

  # ---------------------------------------------------------------- exploration
  def explore(self, fn, st=None, max_paths=None):
    saved = (self.st, self.tape, self.pos, self.pending, self.with_yield)
    hints, hook = list(self.loop_hints), self.yield_hook
    base = (st or self.st)
    outs, pending, n = [], [[]], 0
    try:
      while pending:
        tape = pending.pop()
        n += 1
        if n > (max_paths or self.max_paths): raise Unsupported("too many paths")
        self.st = base.copy(); self.tape, self.pos, self.pending = list(tape), 0, pending
        self.with_yield = list(saved[4]); self.loop_hints[:] = hints; self.yield_hook = hook
        try:
          v = fn()
          outs.append(Outcome(self.st, "normal", v))
        except IterEnd: outs.append(Outcome(self.st, "normal", None))
        except PathEnd: pass
        except PyRaise as e: outs.append(Outcome(self.st, "raise", e.value))
        except ReturnEx as e: outs.append(Outcome(self.st, "return", e.value))
        except BreakEx: outs.append(Outcome(self.st, "break"))
        except ContinueEx: outs.append(Outcome(self.st, "continue"))
    finally:
      self.st, self.tape, self.pos, self.pending, self.with_yield = saved; self.loop_hints[:] = hints; self.yield_hook = hook
    return outs

  def _branch(self, options, feas):
    """options: list of choices; feas(choice)->bool"""
    if self.pos < len(self.tape):
      c = self.tape[self.pos]; self.pos += 1
      return c
    ok = [o for o in options if feas(o)]
    if not ok: raise PathEnd()
    for o in ok[1:]: self.pending.append(self.tape + [o])
    self.tape.append(ok[0]); self.pos += 1
    return ok[0]

  def decide(self, cond):
    if isinstance(cond, bool): return cond
    c = z3.simplify(cond)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    fs = self.st.formulas()
    nc = z3.simplify(z3.Not(c))
    ch = self._branch([True, False], lambda o: self.solver.feasible(fs + [c if o else nc]))
    self.st.pc.append((c if ch else nc, False))
    return ch

  def choose(self, n, label=""):
    return self._branch(list(range(n)), lambda o: True)

  def assume(self, f, axiom=True):
    if isinstance(f, bool):
      if not f: raise PathEnd()
      return
    if z3.is_true(f): return
    self.st.pc.append((f, axiom))

  def check(self, name, goal):
    if self.quiet: return
    if isinstance(goal, bool): goal = z3.BoolVal(goal)
    self.obligations.append((name, self.st.formulas(), goal))

  def entails(self, goal, timeout=1500):
    if isinstance(goal, bool): return goal
    return self.solver.prove(self.st.formulas(), goal, timeout)[0] == "proved"

  # ---------------------------------------------------------------- fresh symbols / allocation
  def fresh_const(self, name, srt):
    self.st.counter += 1
    return z3.Const(f"{name}!{self.st.counter}", srt)
  def fresh_fn(self, name, *sorts):
    self.st.counter += 1
    return z3.Function(f"{name}!{self.st.counter}", *sorts)
  def fresh(self, name, ty):
    return self.value_of(self.fresh_const(name, sort(ty)), ty)
  def value_of(self, t, ty):
    """python value for a term: containers get their own cell"""
    if is_container(ty):
      if ty.kind == "list": self.assume(l_len(ty, t) >= 0)
      return self.new_cont(ty.kind, ty, t)
    if ty.kind == "none": return None
    if ty.kind == "inf": return float("inf")
    if ty.kind == "tup": return tuple(self.value_of(acc(sort(ty), 0, i, t), a) for i, a in enumerate(ty.args))
    return Sym(t, ty)
  def alloc(self, cell):
    self.st.addr += 1
    a = self.st.addr
    self.st.cells[a] = cell
    return a
  def new_obj(self, cls, fields): return ObjRef(self.alloc(ObjC(cls, dict(fields))))
  def new_cont(self, kind, ty, t, frozen=False): return LocRef(("cell", self.alloc(ContC(kind, ty, t, frozen))))
  def new_list(self, items): return LocRef(("cell", self.alloc(PyListC(items))))
  def new_dict(self, d): return LocRef(("cell", self.alloc(PyDictC(dict(d)))))
  def new_set(self, items=()):
    loc = LocRef(("cell", self.alloc(ContC("set", None, None))))
    for i in items: self.M.set_add(self, loc, i)
    return loc

  # ---------------------------------------------------------------- locations
  def norm(self, loc):
    while loc.root[0] == "cell":
      c = self.st.cells[loc.root[1]]
      if isinstance(c, FwdC): loc = LocRef(c.loc.root, c.loc.path + loc.path)
      elif isinstance(c, DeadC): raise Unsupported("use of a stale alias: " + c.why)
      else: break
    return loc
  def root_content(self, root):
    if root[0] == "cell":
      c = self.st.cells[root[1]]
      return c
    _, cls, field, r = root
    ty = self.ref_fields[(cls, field)]
    return ContC(ty.kind, ty, self.fld_get(cls, field, r))
  def content(self, loc):
    """-> ContC / PyListC / PyDictC"""
    loc = self.norm(loc)
    c = self.root_content(loc.root)
    for step in loc.path:
      if isinstance(c, (PyListC, PyDictC)): raise Unsupported("path into concrete container")
      ty, t = c.ty, c.t
      if step[0] == "k":
        if ty.kind == "map": nty, nt = ty.args[1], z3.Select(m_val(ty, t), step[1])
        elif ty.kind == "list": nty, nt = ty.args[0], z3.Select(l_arr(ty, t), step[1])
        else: raise Unsupported("path")
      else: nty, nt = r_field_ty(ty, step[1]), r_get(ty, step[1], t)
      c = ContC(nty.kind, nty, nt)
    return c
  def set_content(self, loc, c):
    loc = self.norm(loc)
    if not loc.path:
      if loc.root[0] == "cell":
        old = self.st.cells[loc.root[1]]
        if isinstance(old, ContC) and old.frozen: raise Unsupported("mutation of a snapshot")
        self.st.cells[loc.root[1]] = c
      else:
        _, cls, field, r = loc.root
        ty = self.ref_fields[(cls, field)]
        self.fld_set(cls, field, r, self.cell_term(c, ty))
      return
    root = self.root_content(loc.root)
    def upd(ty, t, path):
      if not path: return self.cell_term(c, ty)
      step = path[0]
      if step[0] == "k":
        if ty.kind == "map":
          d, v = m_dom(ty, t), m_val(ty, t)
          return mk(ty, d, z3.Store(v, step[1], upd(ty.args[1], z3.Select(v, step[1]), path[1:])))
        a = l_arr(ty, t)
        return mk(ty, l_len(ty, t), z3.Store(a, step[1], upd(ty.args[0], z3.Select(a, step[1]), path[1:])))
      return r_set(ty, step[1], t, upd(r_field_ty(ty, step[1]), r_get(ty, step[1], t), path[1:]))
    nt = upd(root.ty, root.t, loc.path)
    self.set_content(LocRef(loc.root), ContC(root.kind, root.ty, nt))
  def cell_term(self, c, ty):
    if isinstance(c, ContC):
      if c.ty is None: return self.empty_term(ty)
      if c.ty is not ty:
        if c.ty.kind != ty.kind: raise Unsupported(f"container type {c.ty} used as {ty}")
        return self.coerce_cont(c, ty)
      return c.t
    if isinstance(c, PyListC):
      if ty.kind == "list":
        arr = self.fresh_const("arr", z3.ArraySort(z3.IntSort(), sort(ty.args[0])))
        for i, v in enumerate(c.items): arr = z3.Store(arr, i, self.to_term(v, ty.args[0]))
        return mk(ty, z3.IntVal(len(c.items)), arr)
    if isinstance(c, PyDictC):
      if ty.kind == "map":
        dom = empty_set(ty.args[0]); val = self.fresh_const("val", z3.ArraySort(sort(ty.args[0]), sort(ty.args[1])))
        for k, v in c.d.items():
          kt = self.to_term(self.unkey(k), ty.args[0])
          dom = z3.Store(dom, kt, True); val = z3.Store(val, kt, self.to_term(v, ty.args[1]))
        return mk(ty, dom, val)
    raise Unsupported(f"cannot view {type(c).__name__} as {ty}")
  def coerce_cont(self, c, ty):
    raise Unsupported(f"container type {c.ty} used as {ty}")
  def empty_term(self, ty):
    if ty.kind == "set": return empty_set(ty.args[0])
    if ty.kind == "map": return mk(ty, empty_set(ty.args[0]), self.fresh_const("val", z3.ArraySort(sort(ty.args[0]), sort(ty.args[1]))))
    if ty.kind == "list": return mk(ty, z3.IntVal(0), self.fresh_const("arr", z3.ArraySort(z3.IntSort(), sort(ty.args[0]))))
    raise Unsupported("empty " + repr(ty))
  def kill_aliases(self, loc, key=None):
    """loc[key] is overwritten / removed: aliases to it become unusable"""
    loc = self.norm(loc)
    for a, c in list(self.st.cells.items()):
      if not isinstance(c, FwdC): continue
      l = c.loc
      if l.root[0] != loc.root[0]: continue
      same_root = l.root[1] == loc.root[1] if l.root[0] == "cell" else (l.root[1:3] == loc.root[1:3])
      if not same_root: continue
      if l.root[0] == "fld" and not l.root[3].eq(loc.root[3]) and self.entails(l.root[3] != loc.root[3], 500): continue
      n = len(loc.path)
      if len(l.path) < n: continue
      if key is not None and len(l.path) > n and l.path[n][0] == "k":
        k2 = l.path[n][1]
        if not k2.eq(key) and self.entails(k2 != key, 500): continue
      elif key is not None and len(l.path) <= n: continue
      self.st.cells[a] = DeadC("container was overwritten")
  def alias(self, loc):
    """a fresh cell forwarding to loc"""
    return LocRef(("cell", self.alloc(FwdC(self.norm(loc)))))
  def adopt(self, v, loc):
    """the container value v was stored at loc: further mutations through v go there"""
    if isinstance(v, LocRef):
      n = self.norm(v)
      if n.root[0] == "cell" and not n.path:
        self.st.cells[n.root[1]] = FwdC(self.norm(loc))
      elif not (n.root == self.norm(loc).root and n.path == self.norm(loc).path):
        c = self.content(n)
        raise Unsupported("a container is stored in two places")
    elif isinstance(v, ObjRef):
      c = self.st.cells[v.addr]
      if isinstance(c, ObjC):
        for f, fv in c.fields.items():
          if isinstance(fv, LocRef): self.adopt(fv, LocRef(loc.root, loc.path + (("f", f),)))
    elif isinstance(v, tuple): pass

  # ---------------------------------------------------------------- symbolic objects
  def fld_arr(self, cls, field):
    key = (cls, field)
    if key not in self.st.farr:
      ty = self.ref_fields.get(key)
      if ty is None: raise Unsupported(f"undeclared field {cls}.{field}")
      self.st.farr[key] = z3.Const(f"{field}@{cls.split(':')[-1]}", z3.ArraySort(sort(REF(cls)), sort(ty)))
    return self.st.farr[key]
  def fld_get(self, cls, field, r): return z3.Select(self.fld_arr(cls, field), r)
  def fld_set(self, cls, field, r, t): self.st.farr[(cls, field)] = z3.Store(self.fld_arr(cls, field), r, t)
  def ref_decl(self, cls, field):
    for c in self.ref_mro(cls):
      if (c, field) in self.ref_fields: return c
    return None
  def ref_mro(self, cls):
    try: return [c.qual for c in self.mro(self.cls_by_qual(cls)) if isinstance(c, ClassV)]
    except (Unsupported, AttributeError): return [cls]
  def cls_by_qual(self, qual):
    mod, name = qual.split(":")
    m = self.loader.module(mod)
    if m is None: raise Unsupported("no module " + mod)
    v = self.module_attr(m, name)
    return v
  def promote(self, obj, cls):
    c = self.st.cells[obj.addr]
    r = self.fresh_const("new_" + cls.split(":")[-1], sort(REF(cls)))
    self.ref_fields.setdefault((cls, "$alloc"), BOOL)
    self.assume(z3.Not(self.fld_get(cls, "$alloc", r)))
    self.fld_set(cls, "$alloc", r, z3.BoolVal(True))
    for (q, f), ty in list(self.ref_fields.items()):
      if q == cls and f in c.fields:
        v = c.fields[f]
        self.fld_set(cls, f, r, self.to_term(v, ty))
        if isinstance(v, LocRef): self.adopt(v, LocRef(("fld", cls, f, r)))
    self.st.cells[obj.addr] = Sym(r, REF(cls))
    return r
  def deref(self, v):
    if isinstance(v, ObjRef):
      c = self.st.cells[v.addr]
      if isinstance(c, Sym): return c
    return v

  # ---------------------------------------------------------------- typing / terms
  def type_of(self, v):
    v = self.deref(v)
    if isinstance(v, bool): return BOOL
    if isinstance(v, int): return INT
    if isinstance(v, float): return INF if v == float("inf") else REAL
    if isinstance(v, str): return STR
    if isinstance(v, (bytes, bytearray)): return BYTES
    if v is None: return NONE
    if isinstance(v, Sym): return v.ty
    if isinstance(v, tuple): return TUP(*(self.type_of(x) for x in v))
    if isinstance(v, EnumV): return self.enum_type(v.cls)
    if isinstance(v, ObjRef):
      c = self.st.cells[v.addr]
      if c.cls.qual in self.rec_types: return self.rec_types[c.cls.qual]
      for q in self.ref_mro(c.cls.qual):
        if any(k[0] == q for k in self.ref_fields): return REF(q)
      raise Unsupported(f"object of class {c.cls.qual} stored in a symbolic container")
    if isinstance(v, LocRef):
      c = self.content(v)
      if isinstance(c, ContC):
        return c.ty
      if isinstance(c, PyListC):
        ts = [self.type_of(x) for x in c.items]
        return LIST(UNION(*ts)) if ts else None
      if isinstance(c, PyDictC):
        if not c.d: return None
        return MAP(UNION(*[self.type_of(self.unkey(k)) for k in c.d]), UNION(*[self.type_of(x) for x in c.d.values()]))
    raise Unsupported(f"no type for {v!r}")
  def enum_type(self, cls):
    if cls.qual not in self.enum_types:
      self.enum_types[cls.qual] = ENUM(cls.qual, *[n for n, _ in self.enum_members(cls)])
    return self.enum_types[cls.qual]
  def key(self, v):
    """hashable concrete key or None"""
    v = self.deref(v)
    if isinstance(v, (str, int, float, bytes, bool, EnumV, ExtV, ExcCls, TypeV, ObjRef, ClassV)) or v is None: return v
    if isinstance(v, tuple) and all(self.key(x) is not None or x is None for x in v): return v
    if isinstance(v, Sym):
      t = z3.simplify(v.t)
      if z3.is_int_value(t): return t.as_long()
      if z3.is_string_value(t): return t.as_string()
    return None
  def unkey(self, k): return k
  def to_term(self, v, ty):
    v = self.deref(v)
    k = ty.kind
    if isinstance(v, Poison): raise Unsupported("use of " + v.why)
    if k == "union":
      if isinstance(v, Sym) and v.ty is ty: return v.t
      if isinstance(v, Sym) and v.ty.kind == "union":
        for i, a in enumerate(v.ty.args):
          if self.decide(u_is(v.ty, i, v.t)):
            return self.to_term(self.value_of(u_get(v.ty, i, v.t), a) if a.kind not in ("none", "inf") else (None if a.kind == "none" else float("inf")), ty)
        raise PathEnd()
      vt = self.type_of(v) if not (isinstance(v, LocRef) and self.type_of(v) is None) else None
      for i, a in enumerate(ty.args):
        if a is vt: return u_mk(ty, i, None if a.kind in ("none", "inf") else self.to_term(v, a))
      for i, a in enumerate(ty.args):
        if a.kind in ("none", "inf"): continue
        try: return u_mk(ty, i, self.to_term(v, a))
        except Unsupported: continue
      raise Unsupported(f"{vt} not in {ty}")
    if isinstance(v, Sym):
      if v.ty is ty: return v.t
      if v.ty.kind == "union":
        w = self.resolve(v)
        return self.to_term(w, ty)
      if ty is REAL and v.ty is INT: return z3.ToReal(v.t)
      if ty is REAL and v.ty is BOOL: return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
      if ty is INT and v.ty is BOOL: return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
      if v.ty.kind == "ref" and k == "ref" and v.ty is not ty and ty.args[0] in self.ref_mro(v.ty.args[0]):
        raise Unsupported("subclass reference")
      if k == "any" and ty.args[0] == "json": return self.to_json_term(v)
      raise Unsupported(f"{v.ty} used as {ty}")
    if k == "int" and isinstance(v, (int, bool)): return z3.IntVal(int(v))
    if k == "bool" and isinstance(v, bool): return z3.BoolVal(v)
    if k == "real" and isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
      return z3.RealVal(int(v)) if isinstance(v, int) else z3.RealVal(z3.Q(*v.as_integer_ratio()))
    if k == "str" and isinstance(v, str): return z3.StringVal(v)
    if k == "bytes" and isinstance(v, (bytes, bytearray)):
      return z3.Concat(*[z3.Unit(z3.IntVal(b)) for b in v]) if len(v) > 1 else (z3.Unit(z3.IntVal(v[0])) if len(v) else z3.Empty(z3.SeqSort(z3.IntSort())))
    if k == "none" and v is None: return sort(NONE).constructor(0)()
    if k == "inf" and v == float("inf"): return sort(INF).constructor(0)()
    if k == "enum" and isinstance(v, EnumV): return enum_const(ty, v.name)
    if k == "tup" and isinstance(v, tuple) and len(v) == len(ty.args): return mk(ty, *(self.to_term(x, a) for x, a in zip(v, ty.args)))
    if k == "rec" and isinstance(v, ObjRef):
      c = self.st.cells[v.addr]
      return mk(ty, *(self.to_term(c.fields[f], ft) for f, ft in rec_fields(ty)))
    if k == "rec" and isinstance(v, LocRef):
      c = self.content(v)
      if isinstance(c, PyDictC): return mk(ty, *(self.to_term(c.d[f], ft) for f, ft in rec_fields(ty)))
      if isinstance(c, ContC) and c.ty is ty: return c.t
    if k == "ref" and isinstance(v, ObjRef): return self.promote(v, ty.args[0])
    if is_container(ty) and isinstance(v, LocRef): return self.cell_term(self.content(v), ty)
    if k == "list" and isinstance(v, tuple): return self.cell_term(PyListC(v), ty)
    if k == "any":
      fn = getattr(self, "any_inject", {}).get(ty.args[0])
      if fn is not None: return fn(self, v)
    raise Unsupported(f"cannot represent {v!r} as {ty}")
  def resolve(self, v):
    """case split on a union-typed value"""
    v = self.deref(v)
    if isinstance(v, Sym) and v.ty.kind == "union":
      for i, a in enumerate(v.ty.args):
        if i == len(v.ty.args) - 1 or self.decide(u_is(v.ty, i, v.t)):
          if i == len(v.ty.args) - 1: self.assume(u_is(v.ty, i, v.t), axiom=False)
          if a.kind == "none": return None
          if a.kind == "inf": return float("inf")
          return self.value_of(u_get(v.ty, i, v.t), a)
    if isinstance(v, Poison): raise Unsupported("use of " + v.why)
    return v

  # ---------------------------------------------------------------- truth / comparison
  def truth(self, v):
    v = self.resolve(v)
    if isinstance(v, (bool, int, float, str, bytes, tuple)) or v is None: return bool(v)
    if isinstance(v, Sym):
      k = v.ty.kind
      if k == "bool": return self.decide(v.t)
      if k == "int": return self.decide(v.t != 0)
      if k == "real": return self.decide(v.t != 0)
      if k in ("str", "bytes", "seq"): return self.decide(z3.Length(v.t) != 0)
      if k == "any" and (v.ty.args[0], "__len__") in self.any_methods: return self.truth(self.any_methods[(v.ty.args[0], "__len__")](self, v, [], {}))
      if k in ("ref", "rec", "enum", "any"): return True
    if isinstance(v, LocRef): return not self.M.is_empty(self, v)
    if isinstance(v, ObjRef):
      c = self.st.cells[v.addr].cls
      for m in ("__bool__", "__len__"):
        if self.class_member(c, m): return self.truth(self.call(self.getattr(v, m), [], {}))
      return True
    if isinstance(v, ViewV): return self.truth(v.loc)
    return True

  def eq(self, a, b):
    """-> bool | z3 Bool"""
    a, b = self.deref(a), self.deref(b)
    if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported("use of a loop-local value")
    if isinstance(a, Sym) and a.ty.kind == "union" and not (isinstance(b, Sym) and b.ty is a.ty):
      return self._eq_union(a, b)
    if isinstance(b, Sym) and b.ty.kind == "union" and not (isinstance(a, Sym) and a.ty is b.ty):
      return self._eq_union(b, a)
    if isinstance(a, Sym) and isinstance(b, Sym):
      if a.ty is b.ty: return a.t == b.t
      if {a.ty, b.ty} <= {INT, REAL, BOOL}:
        return self.to_term(a, REAL) == self.to_term(b, REAL)
      return False
    if isinstance(a, Sym) or isinstance(b, Sym):
      s, o = (a, b) if isinstance(a, Sym) else (b, a)
      if o is None: return False
      if isinstance(o, bool) and s.ty is BOOL: return s.t if o else z3.Not(s.t)
      if isinstance(o, (int, float)) and s.ty.kind in ("int", "real", "bool"):
        if isinstance(o, float) and abs(o) == float("inf"): return False
        if isinstance(o, float) and s.ty is INT: return z3.ToReal(s.t) == self.to_term(o, REAL)
        return self.to_term(s, INT if s.ty is BOOL else s.ty) == self.to_term(o, INT if s.ty is BOOL else s.ty)
      try: return s.t == self.to_term(o, s.ty)
      except Unsupported:
        if s.ty.kind == "any": raise
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
      if len(a) != len(b): return False
      return self.conj([self.eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, ObjRef) and isinstance(b, ObjRef):
      if a.addr == b.addr: return True
      ca, cb = self.st.cells[a.addr], self.st.cells[b.addr]
      if ca.cls is not cb.cls: return False
      if self.is_dataclass(ca.cls) or self.is_model(ca.cls):
        return self.conj([self.eq(ca.fields[f], cb.fields[f]) for f in ca.fields])
      return False
    if isinstance(a, LocRef) and isinstance(b, LocRef): return self.M.cont_eq(self, a, b)
    if isinstance(a, (LocRef, ObjRef)) or isinstance(b, (LocRef, ObjRef)):
      return False
    if isinstance(a, ClassV) and isinstance(b, ClassV): return a is b
    try: return bool(a == b)
    except Exception: return a is b
  def _eq_union(self, u, o):
    for i, a in enumerate(u.ty.args):
      if o is None:
        if a.kind == "none": return u_is(u.ty, i, u.t)
        continue
    if o is None: return False
    w = self.resolve(u)
    return self.eq(w, o)
  def conj(self, xs):
    out = []
    for x in xs:
      if x is True: continue
      if x is False: return False
      out.append(x)
    return True if not out else (out[0] if len(out) == 1 else z3.And(*out))
  def disj(self, xs):
    out = []
    for x in xs:
      if x is False: continue
      if x is True: return True
      out.append(x)
    return False if not out else (out[0] if len(out) == 1 else z3.Or(*out))
  def neg(self, x): return (not x) if isinstance(x, bool) else z3.Not(x)
  def boolv(self, x): return x if isinstance(x, bool) else Sym(z3.simplify(x), BOOL)
  def bz(self, x): return z3.BoolVal(x) if isinstance(x, bool) else x

  # ---------------------------------------------------------------- classes
  def mro(self, cls):
    """the C3 linearisation"""
    if not isinstance(cls, ClassV): return [cls]
    if not hasattr(cls, "_mro"):
      bs = self.bases(cls)
      lists = [list(self.mro(b)) for b in bs] + [list(bs)]
      out = [cls]
      while any(lists):
        lists = [l for l in lists if l]
        h = next((l[0] for l in lists if not any(l[0] in m[1:] for m in lists)), lists[0][0])
        out.append(h)
        lists = [[x for x in l if x != h] for l in lists]
      cls._mro = out
    return cls._mro
  def bases(self, cls):
    if not hasattr(cls, "_bases"):
      bs = []
      for b in cls.node.bases:
        while isinstance(b, ast.Subscript): b = b.value
        try: bs.append(self.ev_static(b, cls.module))
        except Unsupported: bs.append(ExtV("?"))
      cls._bases = bs
    return cls._bases
  def class_member(self, cls, name):
    for c in self.mro(cls):
      if not isinstance(c, ClassV): continue
      found = None
      for n in c.node.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
          if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in n.decorator_list): continue
          found = n
        elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets): found = n
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None: found = n
      if found is not None: return c, found
    return None
  def class_setter(self, cls, name):
    for c in self.mro(cls):
      if not isinstance(c, ClassV): continue
      for n in c.node.body:
        if isinstance(n, ast.FunctionDef) and n.name == name and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in n.decorator_list):
          return c, n
    return None
  def ext_bases(self, cls): return [c for c in self.mro(cls) if not isinstance(c, ClassV)]
  def is_dataclass(self, cls):
    for c in self.mro(cls):
      if isinstance(c, ClassV) and any("dataclass" in ast.unparse(d) for d in c.node.decorator_list): return True
    return False
  def is_model(self, cls): return any(isinstance(b, ExtV) and b.path.endswith("BaseModel") for b in self.ext_bases(cls))
  def is_enum(self, cls): return any(isinstance(b, ExtV) and b.path in ("enum.Enum", "enum.IntEnum", "enum.StrEnum") for b in self.ext_bases(cls))
  def is_exception(self, cls): return any(isinstance(b, ExcCls) for b in self.ext_bases(cls))
  def enum_members(self, cls):
    out = []
    for n in cls.node.body:
      if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
        try: v = self.ev_static(n.value, cls.module)
        except Unsupported: v = n.targets[0].id
        out.append((n.targets[0].id, v))
    return out
  def fields_of(self, cls):
    """annotated fields in definition order: [(name, default node | None, owner)]"""
    out = {}
    for c in reversed(self.mro(cls)):
      if not isinstance(c, ClassV): continue
      if not self.is_model(cls) and not any("dataclass" in ast.unparse(d) for d in c.node.decorator_list): continue
      for n in c.node.body:
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
          if "ClassVar" in ast.unparse(n.annotation): continue
          out[n.target.id] = (n.target.id, n.value, c)
    return list(out.values())
  def subclass_of(self, c, d):
    if isinstance(c, ClassV):
      for x in self.mro(c):
        if x is d or (isinstance(x, ClassV) and isinstance(d, ClassV) and x.qual == d.qual): return True
        if isinstance(x, ExcCls) and isinstance(d, ExcCls) and issubclass(x.py, d.py): return True
        if isinstance(x, ExtV) and x == d: return True
      return False
    if isinstance(c, ExcCls) and isinstance(d, ExcCls): return issubclass(c.py, d.py)
    return c == d

  # ---------------------------------------------------------------- names
  def lookup(self, name, fid, module):
    f = fid
    while f is not None:
      fr = self.st.frames[f]
      if name in fr:
        v = fr[name]
        if isinstance(v, Poison): raise Unsupported(f"use of {name}: {v.why}")
        return v
      f = fr.get("$parent")
    return self.module_attr(module, name)
  def module_attr(self, module, name):
    key = (module.name, name)
    ov = self.models.get("const:" + module.name + ":" + name)
    if ov is not None: return ov(self)
    if name in module.defs:
      n = module.defs[name][-1]
      if isinstance(n, ast.ClassDef):
        if key not in self.classes: self.classes[key] = ClassV(name, module, n)
        return self.classes[key]
      if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        ck = ("fn",) + key
        fv = FnV(n, module, None, None, f"{module.name}:{name}")
        return self.decorated(fv, n, None, module)
      ck = ("const",) + key
      if ck in self.classes: return self.classes[ck]
      v = self.ev_static(n.value, module)
      if len(n.targets if isinstance(n, ast.Assign) else [1]) == 1 and isinstance((n.targets[0] if isinstance(n, ast.Assign) else n.target), ast.Name):
        if not isinstance(v, (LocRef, ObjRef)): self.classes[ck] = v
        return v
      raise Unsupported("module constant " + name)
    if name in module.imports:
      imp = module.imports[name]
      return self.imported(imp)
    return self.builtin(name)
  def imported(self, imp):
    if imp[0] == "mod":
      d = imp[1]
      if self.loader.is_own(d): return ModuleV(self.loader.module(d))
      return self.ext(d)
    _, base, attr = imp
    if self.loader.is_own(base):
      m = self.loader.module(base)
      if m is None: raise Unsupported("module " + base)
      if attr in m.defs or attr in m.imports or ("const:" + m.name + ":" + attr) in self.models: return self.module_attr(m, attr)
      sub = self.loader.module(base + "." + attr)
      if sub is not None: return ModuleV(sub)
      raise Unsupported(f"{base}.{attr}")
    return self.ext(base + "." + attr)
  def ext(self, path):
    if path in EXT_EXC: return ExcCls(EXT_EXC[path])
    if path in self.M.EXT_CONST: return self.M.EXT_CONST[path]
    return ExtV(path)
  def builtin(self, name):
    if name in BUILTIN_TYPES: return TypeV(name)
    o = getattr(_b, name, None)
    if is_exc_type(o): return ExcCls(o)
    if name in self.M.BUILTINS: return NativeV(self.M.BUILTINS[name], name)
    if name in ("__debug__",): return True
    if name == "NotImplemented": return ExtV("NotImplemented")
    if "builtins." + name in self.ext_models: return ExtV("builtins." + name)
    raise Unsupported(f"unknown name {name}")
  def ev_static(self, node, module):
    """evaluate a module-level expression (no local frame)"""
    fid = self.new_frame(None)
    return self.ev(node, Ctx(fid, module, None))
  def new_frame(self, parent):
    self.st.addr += 1
    fid = self.st.addr
    self.st.frames[fid] = {"$parent": parent}
    return fid

  # ---------------------------------------------------------------- calls
  def call(self, f, args=(), kwargs=None):
    kwargs = kwargs or {}
    args = list(args)
    f = self.deref(f)
    if isinstance(f, Sym) and f.ty.kind == "union": f = self.resolve(f)
    if isinstance(f, BoundV): return self.call(f.fn, [f.self_] + args, kwargs)
    if isinstance(f, NativeV): return f.fn(self, args, kwargs)
    if isinstance(f, BuiltinMethod): return self.M.call_method(self, f.recv, f.name, args, kwargs)
    if isinstance(f, FnV): return self.call_fn(f, args, kwargs)
    if isinstance(f, ClassV): return self.instantiate(f, args, kwargs)
    if isinstance(f, TypeV): return self.M.construct_type(self, f.name, args, kwargs)
    if isinstance(f, ExcCls): return ExcV(f.py, args)
    if isinstance(f, ExtV):
      m = self.ext_models.get(f.path)
      if m is not None: return m(self, args, kwargs)
      raise Unsupported("call of external " + f.path)
    if isinstance(f, ObjRef):
      m = self.class_member(self.st.cells[f.addr].cls, "__call__")
      if m: return self.call(self.getattr(f, "__call__"), args, kwargs)
    if isinstance(f, Sym) and f.ty.kind == "any":
      m = self.any_methods.get((f.ty.args[0], "__call__"))
      if m: return m(self, f, args, kwargs)
    raise Unsupported(f"call of {f!r}")

  def call_fn(self, f, args, kwargs):
    model = self.models.get(f.qual)
    if model is not None:
      if f.is_async: return CoroV(lambda: model(self, args, kwargs), f.qual)
      return model(self, args, kwargs)
    self.fn_used.add(f.qual)
    if f.is_async and not self.is_gen(f.node): return CoroV(lambda: self.run_fn(f, args, kwargs), f.qual)
    if self.is_gen(f.node): return GenCall(f, args, kwargs)
    return self.run_fn(f, args, kwargs)
  def is_gen(self, node):
    if isinstance(node, ast.Lambda): return False
    if not hasattr(node, "_is_gen"):
      r = False
      stack = list(node.body)
      while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): r = True; break
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): continue
        stack.extend(ast.iter_child_nodes(n))
      node._is_gen = r
    return node._is_gen
  def bind(self, f, args, kwargs):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    loc = {}
    kwargs = dict(kwargs)
    for n, v in zip(pos, args): loc[n] = v
    extra = list(args[len(pos):])
    if a.vararg: loc[a.vararg.arg] = tuple(extra)
    elif extra: self.raise_py(TypeError, "too many arguments")
    for n in pos[len(args):] + [x.arg for x in a.kwonlyargs]:
      if n in kwargs: loc[n] = kwargs.pop(n)
    for n in list(kwargs):
      if n in pos and n in loc: self.raise_py(TypeError, "multiple values")
    nd = len(f.defaults)
    for i, n in enumerate(pos):
      if n not in loc:
        j = i - (len(pos) - nd)
        if j < 0: self.raise_py(TypeError, f"missing argument {n}")
        loc[n] = f.defaults[j]
    for x in a.kwonlyargs:
      if x.arg not in loc:
        if x.arg not in f.kwdefaults: self.raise_py(TypeError, f"missing argument {x.arg}")
        loc[x.arg] = f.kwdefaults[x.arg]
    if a.kwarg: loc[a.kwarg.arg] = self.new_dict(kwargs)
    elif kwargs: self.raise_py(TypeError, "unexpected keyword argument " + ",".join(kwargs))
    return loc
  def run_fn(self, f, args, kwargs):
    self.depth += 1
    if self.depth > 60:
      self.depth = 0
      raise Unsupported("recursion: " + f.qual)
    try:
      loc = self.bind(f, args, kwargs)
      fid = self.new_frame(f.closure)
      self.st.frames[fid].update(loc)
      cx = Ctx(fid, f.module, f.cls, f.qual)
      if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, cx)
      try: self.ex_body(f.node.body, cx)
      except ReturnEx as e: return e.value
      return None
    finally: self.depth -= 1
  def make_fn(self, node, cx, qual=None):
    a = node.args
    defaults = [self.ev(d, cx) for d in a.defaults]
    kwd = {x.arg: self.ev(d, cx) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    return FnV(node, cx.module, cx.fid, cx.cls, qual or getattr(node, "name", "<lambda>"), defaults, kwd)
  def method_fn(self, cls, node):
    cx = Ctx(None, cls.module, cls)
    a = node.args
    defaults, kwd = [], {}
    if a.defaults or any(d is not None for d in a.kw_defaults):
      fid = self.new_frame(None)
      cx2 = Ctx(fid, cls.module, cls)
      defaults = [self.ev(d, cx2) for d in a.defaults]
      kwd = {x.arg: self.ev(d, cx2) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    return FnV(node, cls.module, None, cls, f"{cls.qual}.{node.name}", defaults, kwd)
  def decorated(self, fv, node, cx, module):
    if not fv.defaults and node.args.defaults:
      c2 = cx or Ctx(self.new_frame(None), module, None)
      fv.defaults = [self.ev(d, c2) for d in node.args.defaults]
    if node.args.kwonlyargs and not fv.kwdefaults:
      c2 = cx or Ctx(self.new_frame(None), module, None)
      fv.kwdefaults = {x.arg: self.ev(d, c2) for x, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
    v = fv
    for d in reversed(node.decorator_list):
      txt = ast.unparse(d)
      if txt in ("staticmethod", "classmethod", "property", "abstractmethod", "override", "functools.lru_cache()", "functools.cached_property", "cached_property"): continue
      if txt in ("asynccontextmanager", "contextmanager", "contextlib.asynccontextmanager", "contextlib.contextmanager"):
        v = NativeV((lambda ff: (lambda itp, a, k: CtxMgrV(ff, a, k)))(v), "contextmanager")
        continue
      if txt.startswith("functools.wraps") or txt.startswith("wraps"): continue
      c2 = cx or Ctx(self.new_frame(None), module, None)
      v = self.call(self.ev(d, c2), [v], {})
    return v
  def instantiate(self, cls, args, kwargs):
    m = self.models.get(cls.qual)
    if m is not None: return m(self, args, kwargs)
    self.fn_used.add(cls.qual)
    if self.is_enum(cls):
      for n, v in self.enum_members(cls):
        if self.decide(self.bz(self.eq(v, args[0]))): return EnumV(cls, n, v)
      self.raise_py(ValueError, "not a valid enum value")
    if any(isinstance(b, ExtV) and b.path.endswith("TypedDict") for b in self.ext_bases(cls)): return self.new_dict(kwargs)
    o = self.new_obj(cls, {})
    init = self.class_member(cls, "__init__")
    if init is not None:
      r = self.call(BoundV(self.method_fn(init[0], init[1]), o), args, kwargs)
      return o
    if self.is_dataclass(cls) or self.is_model(cls):
      fs = self.fields_of(cls)
      vals = {}
      for (n, d, owner), v in zip(fs, args): vals[n] = v
      for k, v in kwargs.items(): vals[k] = v
      for n, d, owner in fs:
        if n not in vals:
          if d is None: self.raise_py(EXT_EXC["pydantic.ValidationError"] if self.is_model(cls) else TypeError, "missing field " + n)
          vals[n] = self.ev_static(d, owner.module)
      order = {n: vals[n] for n, _, _ in fs if n in vals}
      self.st.cells[o.addr] = ObjC(cls, order)
      return o
    if self.is_exception(cls):
      self.st.cells[o.addr] = ObjC(cls, {"args": tuple(args)})
      return o
    if args or kwargs:
      if self.ext_bases(cls): return o
      self.raise_py(TypeError, "constructor takes no arguments")
    return o
  def raise_py(self, py, msg=""):
    raise PyRaise(ExcV(py, (msg,)))

  # ---------------------------------------------------------------- attributes
  def getattr(self, v, name):
    v = self.resolve(v)
    if isinstance(v, ObjRef):
      c = self.st.cells[v.addr]
      if name == "__class__": return c.cls
      if name == "__dict__":
        return self.new_dict(c.fields)
      if name in c.fields:
        r = c.fields[name]
        if isinstance(r, Poison): raise Unsupported("use of " + r.why)
        return r
      return self.class_attr(c.cls, name, v)
    if isinstance(v, Sym):
      if v.ty.kind == "ref":
        q = v.ty.args[0]
        am = self.attr_models.get((q, name))
        if am is not None: return am(self, v)
        d = self.ref_decl(q, name)
        if d is not None:
          ty = self.ref_fields[(d, name)]
          r = v.t
          if d != q: raise Unsupported("field of superclass")
          if is_container(ty): return self.alias(LocRef(("fld", d, name, r)))
          return self.value_of(self.fld_get(d, name, r), ty)
        return self.class_attr(self.cls_by_qual(q), name, v)
      if v.ty.kind == "rec":
        ft = r_field_ty(v.ty, name)
        if name == "__dict__" and ft is None: return v
        if ft is not None:
          t = r_get(v.ty, name, v.t)
          if is_container(ft): return self.new_cont(ft.kind, ft, t, frozen=True)
          return self.value_of(t, ft)
        return self.class_attr(self.cls_by_qual(rec_name(v.ty)), name, v)
      if v.ty.kind == "any":
        am = self.attr_models.get((v.ty.args[0], name))
        if am is not None: return am(self, v)
        if (v.ty.args[0], name) in self.any_methods:
          m = self.any_methods[(v.ty.args[0], name)]
          return NativeV(lambda itp, a, k: m(itp, v, a, k), name)
        raise Unsupported(f"attribute {name} of opaque {v.ty}")
      if v.ty.kind == "enum":
        if name in ("value", "name"): return self.enum_attr(v, name)
        cls = self.cls_by_qual(v.ty.args[0])
        return self.class_attr(cls, name, v)
      return self.M.sym_attr(self, v, name)
    if isinstance(v, LocRef):
      c = self.content(v)
      if isinstance(c, ContC) and c.ty is not None and c.ty.kind == "rec":
        ft = r_field_ty(c.ty, name)
        if ft is not None:
          if is_container(ft): return self.alias(LocRef(self.norm(v).root, self.norm(v).path + (("f", name),)))
          return self.value_of(r_get(c.ty, name, c.t), ft)
      return BuiltinMethod(v, name)
    if isinstance(v, ModuleV):
      m = v.mod
      if name in m.defs or name in m.imports: return self.module_attr(m, name)
      sub = self.loader.module(m.name + "." + name)
      if sub is not None: return ModuleV(sub)
      raise Unsupported(f"{m.name}.{name}")
    if isinstance(v, ClassV): return self.class_attr(v, name, None)
    if isinstance(v, self.M.RegexV): return v.method(name)
    if isinstance(v, EnumV):
      if name == "value": return v.value
      if name == "name": return v.name
      return self.class_attr(v.cls, name, v)
    if isinstance(v, ExtV): return self.ext(v.path + "." + name)
    if isinstance(v, SuperV):
      mro = self.mro(self.class_of(v.self_))
      i = next((j for j, c in enumerate(mro) if isinstance(c, ClassV) and c.qual == v.cls.qual), -1)
      for c in mro[i + 1:]:
        if isinstance(c, ClassV):
          for n in c.node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
              fv = self.method_fn(c, n)
              decs = [ast.unparse(d) for d in n.decorator_list]
              if "property" in decs: return self.call(BoundV(fv, v.self_))
              return BoundV(fv, v.self_)
        elif name == "__init__":
          def init(itp, a, k):
            if isinstance(v.self_, ObjRef):
              oc = itp.st.cells[v.self_.addr]
              if itp.is_exception(oc.cls): itp.st.cells[v.self_.addr] = ObjC(oc.cls, {**oc.fields, "args": tuple(a)})
              elif itp.is_model(oc.cls): itp.st.cells[v.self_.addr] = ObjC(oc.cls, {**oc.fields, **k})
          return NativeV(init, "super().__init__")
        elif name == "__setattr__":
          return NativeV(lambda itp, a, k: itp.setattr_raw(v.self_, a[0], a[1]), "super().__setattr__")
      if name == "__init__": return NativeV(lambda itp, a, k: None)
      if name == "__setattr__": return NativeV(lambda itp, a, k: itp.setattr_raw(v.self_, a[0], a[1]))
      raise Unsupported("super()." + name)
    if isinstance(v, ExcV):
      if name == "args": return v.args
      if name in v.attrs: return v.attrs[name]
      raise Unsupported("attribute of exception: " + name)
    if isinstance(v, (str, bytes, tuple, int, float, ViewV, GenV, IterV, RangeV)): return self.M.sym_attr(self, v, name)
    if isinstance(v, (FnV, BoundV, NativeV)):
      if name == "__name__": return "fn"
    if v is None: self.raise_py(AttributeError, "None has no attribute " + name)
    if isinstance(v, TypeV): return NativeV(lambda itp, a, k: itp.M.type_method(itp, v.name, name, a, k), f"{v.name}.{name}")
    if isinstance(v, CtxMgrV): raise Unsupported("context manager attribute")
    raise Unsupported(f"attribute {name} of {v!r}")
  def enum_attr(self, v, name):
    cls = self.cls_by_qual(v.ty.args[0])
    ms = self.enum_members(cls)
    for n, val in ms[:-1]:
      if self.decide(v.t == enum_const(v.ty, n)): return val if name == "value" else n
    return ms[-1][1] if name == "value" else ms[-1][0]
  def class_of(self, v):
    v = self.deref(v)
    if isinstance(v, ObjRef): return self.st.cells[v.addr].cls
    if isinstance(v, Sym) and v.ty.kind == "ref": return self.cls_by_qual(v.ty.args[0])
    if isinstance(v, Sym) and v.ty.kind == "rec": return self.cls_by_qual(rec_name(v.ty))
    if isinstance(v, EnumV): return v.cls
    if isinstance(v, ClassV): return v
    raise Unsupported(f"class of {v!r}")
  def class_attr(self, cls, name, inst):
    cm = self.models.get(f"attr:{cls.qual}.{name}")
    if cm is not None: return cm(self, inst)
    if self.is_enum(cls) and inst is None:
      for n, v in self.enum_members(cls):
        if n == name: return EnumV(cls, n, v)
    hit = self.class_member(cls, name)
    if hit is None:
      if name in ("__name__", "__qualname__"): return cls.name
      m = self.M.class_ext_method(self, cls, name, inst)
      if m is not None: return m
      for b in self.ext_bases(cls):
        if isinstance(b, ExcCls) and name == "args": return ()
        am = self.models.get(f"extattr:{getattr(b, 'path', '?')}.{name}")
        if am is not None: return am(self, inst)
      if inst is not None and not [b for b in self.ext_bases(cls) if isinstance(b, ExtV) and b.path not in ("abc.ABC", "typing.Generic")]:
        self.raise_py(AttributeError, name)
      raise Unsupported(f"attribute {name} of {cls.qual}")
    owner, node = hit
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
      decs = [ast.unparse(d) for d in node.decorator_list]
      fv = self.method_fn(owner, node)
      if "staticmethod" in decs: return fv
      if "classmethod" in decs: return BoundV(fv, inst if isinstance(inst, ClassV) else cls)
      other = [d for d in decs if d not in ("property", "abstractmethod", "functools.cached_property", "cached_property", "override") and not d.startswith("field_")]
      if "property" in decs or "cached_property" in decs or "functools.cached_property" in decs:
        if inst is None: return fv
        return self.call(BoundV(fv, inst))
      callee = fv
      if other: callee = self.decorated(fv, node, None, owner.module)
      return BoundV(callee, inst) if inst is not None else callee
    return self.ev_static(node.value, owner.module) if not isinstance(node.value, ast.Call) or True else None
  def setattr(self, v, name, val):
    v = self.resolve(v)
    if isinstance(v, ObjRef):
      cls = self.st.cells[v.addr].cls
      if self.class_member(cls, "__setattr__"):
        return self.call(self.getattr(v, "__setattr__"), [name, val])
      st = self.class_setter(cls, name)
      if st is not None: return self.call(BoundV(self.method_fn(*st), v), [val])
      if any("frozen=True" in ast.unparse(d) for c in self.mro(cls) if isinstance(c, ClassV) for d in c.node.decorator_list):
        self.raise_py(AttributeError, "frozen dataclass")
      return self.setattr_raw(v, name, val)
    if isinstance(v, Sym) and v.ty.kind == "ref":
      q = v.ty.args[0]
      st = self.class_setter(self.cls_by_qual(q), name) if (q, name) not in self.ref_fields else None
      if st is not None: return self.call(BoundV(self.method_fn(*st), v), [val])
      ty = self.ref_fields.get((q, name))
      if ty is None: raise Unsupported(f"undeclared field {q}.{name}")
      t = self.to_term(val, ty)
      if is_container(ty): self.kill_aliases(LocRef(("fld", q, name, v.t)))
      self.fld_set(q, name, v.t, t)
      if is_container(ty): self.adopt(val, LocRef(("fld", q, name, v.t)))
      return
    if isinstance(v, ClassV): raise Unsupported("class attribute assignment")
    if isinstance(v, Sym) and v.ty.kind == "any" and (v.ty.args[0], name) in self.attr_sets:
      self.attr_sets[(v.ty.args[0], name)](self, v, val); return
    raise Unsupported(f"attribute assignment on {v!r}")
  def setattr_raw(self, v, name, val):
    d = self.deref(v)
    if isinstance(d, Sym): return self.setattr(d, name, val)
    c = self.st.cells[v.addr]
    self.st.cells[v.addr] = ObjC(c.cls, {**c.fields, name: val})

  # ---------------------------------------------------------------- await / yield points
  def await_(self, v):
    v = self.deref(v)
    if isinstance(v, CoroV): return v.thunk()
    if isinstance(v, TaskV): return self.await_(v.coro)
    if isinstance(v, Sym) and v.ty.kind == "any":
      m = self.any_methods.get((v.ty.args[0], "__await__"))
      if m: return m(self, v, [], {})
    if isinstance(v, ObjRef):
      cls = self.st.cells[v.addr].cls
      if self.class_member(cls, "__await__"): raise Unsupported("__await__")
    if isinstance(v, NativeV): return v.fn(self, [], {})
    raise Unsupported(f"await of {v!r}")
  def yield_point(self, why=""):
    if self.yield_hook is not None: self.yield_hook(self, why)

  # ---------------------------------------------------------------- statements
  def ex_body(self, body, cx):
    for s in body: self.ex(s, cx)
  def ex(self, s, cx):
    m = getattr(self, "ex_" + type(s).__name__, None)
    if m is None: raise Unsupported("statement " + type(s).__name__)
    return m(s, cx)
  def ex_Expr(self, s, cx):
    if isinstance(s.value, ast.Constant): return
    self.ev(s.value, cx)
  def ex_Pass(self, s, cx): pass
  def ex_Break(self, s, cx): raise BreakEx()
  def ex_Continue(self, s, cx): raise ContinueEx()
  def ex_Return(self, s, cx): raise ReturnEx(None if s.value is None else self.ev(s.value, cx))
  def ex_Import(self, s, cx):
    for a in s.names: self.st.frames[cx.fid][a.asname or a.name.split(".")[0]] = self.imported(("mod", a.name if a.asname else a.name.split(".")[0]))
  def ex_ImportFrom(self, s, cx):
    for a in s.names: self.st.frames[cx.fid][a.asname or a.name] = self.imported(("from", s.module or "", a.name))
  def ex_Nonlocal(self, s, cx):
    fr = self.st.frames[cx.fid]
    fr["$nonlocal"] = tuple(fr.get("$nonlocal", ())) + tuple(s.names)
  def ex_Global(self, s, cx): raise Unsupported("global statement")
  def ex_FunctionDef(self, s, cx):
    fv = self.make_fn(s, cx, f"{cx.module.name}:<local>.{s.name}")
    self.st.frames[cx.fid][s.name] = self.decorated(fv, s, cx, cx.module)
  ex_AsyncFunctionDef = ex_FunctionDef
  def ex_ClassDef(self, s, cx): raise Unsupported("local class")
  def ex_Assign(self, s, cx):
    v = self.ev(s.value, cx)
    for t in s.targets: self.assign(t, v, cx)
  def ex_AnnAssign(self, s, cx):
    if s.value is not None: self.assign(s.target, self.ev(s.value, cx), cx)
  def ex_AugAssign(self, s, cx):
    op = type(s.op).__name__
    t = s.target
    if isinstance(t, ast.Name):
      cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), cx)
      self.assign(t, self.M.iop(self, op, cur, self.ev(s.value, cx)), cx)
    elif isinstance(t, ast.Attribute):
      o = self.ev(t.value, cx)
      cur = self.getattr(o, t.attr)
      self.setattr(o, t.attr, self.M.iop(self, op, cur, self.ev(s.value, cx)))
    elif isinstance(t, ast.Subscript):
      o = self.ev(t.value, cx); k = self.ev(t.slice, cx)
      cur = self.M.getitem(self, o, k)
      self.M.setitem(self, o, k, self.M.iop(self, op, cur, self.ev(s.value, cx)))
    else: raise Unsupported("augmented assignment")
  def assign(self, t, v, cx):
    if isinstance(t, ast.Name):
      fid = cx.fid
      while t.id in self.st.frames[fid].get("$nonlocal", ()):
        fid = self.st.frames[fid]["$parent"]
        while t.id not in self.st.frames[fid] and self.st.frames[fid].get("$parent") is not None: fid = self.st.frames[fid]["$parent"]
        break
      self.st.frames[fid][t.id] = v
    elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, cx), t.attr, v)
    elif isinstance(t, ast.Subscript): self.M.setitem(self, self.ev(t.value, cx), self.ev(t.slice, cx), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
      items = self.M.unpack(self, v, len(t.elts), next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None))
      for e, x in zip(t.elts, items): self.assign(e.value if isinstance(e, ast.Starred) else e, x, cx)
    else: raise Unsupported("assignment target")
  def ex_Delete(self, s, cx):
    for t in s.targets:
      if isinstance(t, ast.Subscript): self.M.delitem(self, self.ev(t.value, cx), self.ev(t.slice, cx))
      elif isinstance(t, ast.Name): self.st.frames[cx.fid].pop(t.id, None)
      else: raise Unsupported("del")
  def ex_If(self, s, cx):
    self.ex_body(s.body if self.truth(self.ev(s.test, cx)) else s.orelse, cx)
  def ex_Assert(self, s, cx):
    if not self.truth(self.ev(s.test, cx)): self.raise_py(AssertionError)
  def ex_Raise(self, s, cx):
    if s.exc is None:
      e = self.lookup("$exc", cx.fid, cx.module)
      raise PyRaise(e)
    v = self.ev(s.exc, cx)
    if isinstance(v, (ClassV, ExcCls)): v = self.call(v)
    raise PyRaise(v)
  def exc_matches(self, val, cls):
    cls = self.resolve(cls)
    if isinstance(cls, tuple): return any(self.exc_matches(val, c) for c in cls)
    val = self.deref(val)
    if isinstance(val, ExcV): return isinstance(cls, ExcCls) and issubclass(val.py, cls.py)
    if isinstance(val, ObjRef): return self.subclass_of(self.st.cells[val.addr].cls, cls)
    raise Unsupported("exception value")
  def ex_Try(self, s, cx):
    def inner():
      try: self.ex_body(s.body, cx)
      except PyRaise as e:
        for h in s.handlers:
          if h.type is None or self.exc_matches(e.value, self.ev(h.type, cx)):
            fr = self.st.frames[cx.fid]
            if h.name: fr[h.name] = e.value
            old = fr.get("$exc")
            fr["$exc"] = e.value
            try: self.ex_body(h.body, cx)
            finally:
              fr = self.st.frames[cx.fid]
              if old is None: fr.pop("$exc", None)
              else: fr["$exc"] = old
              if h.name: fr.pop(h.name, None)
            return
        raise
      else: self.ex_body(s.orelse, cx)
    if not s.finalbody: return inner()
    try: inner()
    except (PyRaise, ReturnEx, BreakEx, ContinueEx):
      self.ex_body(s.finalbody, cx)
      raise
    else: self.ex_body(s.finalbody, cx)
  def ex_With(self, s, cx): self.with_items(s.items, s.body, cx, False)
  def ex_AsyncWith(self, s, cx): self.with_items(s.items, s.body, cx, True)
  def with_items(self, items, body, cx, is_async):
    if not items: return self.ex_body(body, cx)
    it, rest = items[0], items[1:]
    m = self.ev(it.context_expr, cx)
    self.with_value(m, it.optional_vars, lambda: self.with_items(rest, body, cx, is_async), cx, is_async)
  def with_value(self, m, var, body, cx, is_async):
    m = self.deref(m)
    if isinstance(m, CtxMgrV):
      done = []
      pend = []
      def hook(itp, val):
        if done: raise Unsupported("context manager yields twice")
        done.append(1)
        if var is not None: self.assign(var, val, cx)
        saved = self.with_yield; self.with_yield = saved[:-1]
        try: body()
        except (ReturnEx, BreakEx, ContinueEx) as e: pend.append(e)
        finally: self.with_yield = saved
        return None
      self.with_yield = self.with_yield + [hook]
      n = len(self.with_yield)
      try: self.run_fn(m.fn, m.args, m.kwargs)
      finally: self.with_yield = self.with_yield[:n - 1]
      if pend: raise pend[0]
      return
    names = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
    aw = self.await_ if is_async else (lambda x: x)
    wm = getattr(m, "with_model", None)
    enter, exit_ = self.M.ctx_methods(self, m, names)
    val = aw(self.call(enter))
    if var is not None: self.assign(var, val, cx)
    try: body()
    except PyRaise as e:
      r = aw(self.call(exit_, [None, e.value, None]))
      if r is not None and self.truth(r): return
      raise
    except (ReturnEx, BreakEx, ContinueEx):
      aw(self.call(exit_, [None, None, None]))
      raise
    else: aw(self.call(exit_, [None, None, None]))
  def ex_Match(self, s, cx):
    v = self.ev(s.subject, cx)
    for c in s.cases:
      if self.match_pat(c.pattern, v, cx) and (c.guard is None or self.truth(self.ev(c.guard, cx))):
        return self.ex_body(c.body, cx)
  def match_pat(self, p, v, cx):
    if isinstance(p, ast.MatchValue): return self.decide(self.bz(self.eq(v, self.ev(p.value, cx))))
    if isinstance(p, ast.MatchSingleton): return self.decide(self.bz(self.is_(v, p.value)))
    if isinstance(p, ast.MatchOr): return any(self.match_pat(q, v, cx) for q in p.patterns)
    if isinstance(p, ast.MatchAs):
      if p.pattern is not None and not self.match_pat(p.pattern, v, cx): return False
      if p.name: self.st.frames[cx.fid][p.name] = v
      return True
    if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
      return self.truth(self.M.isinstance_(self, v, self.ev(p.cls, cx)))
    raise Unsupported("match pattern")
  def ex_For(self, s, cx):
    from .loops import for_loop
    for_loop(self, s, cx)
  def ex_AsyncFor(self, s, cx): raise Unsupported("async for")
  def ex_While(self, s, cx):
    from .loops import while_loop
    while_loop(self, s, cx)

  # ---------------------------------------------------------------- expressions
  def ev(self, e, cx):
    m = getattr(self, "ev_" + type(e).__name__, None)
    if m is None: raise Unsupported("expression " + type(e).__name__)
    return m(e, cx)
  def ev_Constant(self, e, cx): return e.value
  def ev_Name(self, e, cx): return self.lookup(e.id, cx.fid, cx.module)
  def ev_Attribute(self, e, cx): return self.getattr(self.ev(e.value, cx), e.attr)
  def ev_Subscript(self, e, cx):
    o = self.ev(e.value, cx)
    if isinstance(o, (ClassV, ExtV, TypeV)): return o  # generic alias
    return self.M.getitem(self, o, self.ev(e.slice, cx))
  def ev_Slice(self, e, cx):
    return SliceV(*(None if x is None else self.ev(x, cx) for x in (e.lower, e.upper, e.step)))
  def ev_Tuple(self, e, cx): return tuple(self.ev_elts(e.elts, cx))
  def ev_List(self, e, cx): 
    if any(isinstance(x, ast.Starred) for x in e.elts) : return self.M.list_display(self, e, cx)
    return self.new_list(self.ev_elts(e.elts, cx))
  def ev_Set(self, e, cx): return self.new_set(self.ev_elts(e.elts, cx))
  def ev_elts(self, elts, cx):
    out = []
    for x in elts:
      if isinstance(x, ast.Starred): out.extend(self.M.concrete_items(self, self.ev(x.value, cx)))
      else: out.append(self.ev(x, cx))
    return out
  def ev_Dict(self, e, cx):
    d = self.new_dict({})
    for k, v in zip(e.keys, e.values):
      if k is None: self.M.dict_update(self, d, self.ev(v, cx))
      else:
        kv = self.ev(k, cx)
        self.M.setitem(self, d, kv, self.ev(v, cx))
    return d
  def ev_IfExp(self, e, cx): return self.ev(e.body if self.truth(self.ev(e.test, cx)) else e.orelse, cx)
  def ev_BoolOp(self, e, cx):
    v = None
    for i, x in enumerate(e.values):
      v = self.ev(x, cx)
      if i == len(e.values) - 1: return v
      t = self.truth(v)
      if isinstance(e.op, ast.And) and not t: return v
      if isinstance(e.op, ast.Or) and t: return v
    return v
  def ev_UnaryOp(self, e, cx):
    v = self.ev(e.operand, cx)
    if isinstance(e.op, ast.Not): return not self.truth(v)
    return self.M.unop(self, type(e.op).__name__, v)
  def ev_BinOp(self, e, cx): return self.M.binop(self, type(e.op).__name__, self.ev(e.left, cx), self.ev(e.right, cx))
  def ev_Compare(self, e, cx):
    l = self.ev(e.left, cx)
    res = True
    for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
      rv = self.ev(r, cx)
      res = self.compare(type(op).__name__, l, rv)
      if i < len(e.ops) - 1:
        if not self.truth(res): return False
      l = rv
    return res
  def is_(self, a, b):
    a, b = self.deref(a), self.deref(b)
    if isinstance(a, Sym) and a.ty.kind == "union" and (b is None or isinstance(b, bool)):
      if b is None: return self.disj([u_is(a.ty, i, a.t) for i, x in enumerate(a.ty.args) if x.kind == "none"])
      a = self.resolve(a)
    if isinstance(b, Sym) and b.ty.kind == "union" and a is None: return self.is_(b, a)
    if a is None or b is None:
      if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported("loop-local value")
      return a is None and b is None
    if isinstance(a, (Sym, EnumV, bool)) and isinstance(b, (Sym, EnumV, bool)): return self.eq(a, b)
    if isinstance(a, ObjRef) and isinstance(b, ObjRef): return a.addr == b.addr
    if isinstance(a, LocRef) and isinstance(b, LocRef):
      na, nb = self.norm(a), self.norm(b)
      return na.root == nb.root and na.path == nb.path
    if isinstance(a, LocRef) or isinstance(b, LocRef): return False
    if isinstance(a, ClassV) and isinstance(b, ClassV): return a.qual == b.qual
    return a is b or a == b
  def compare(self, op, a, b):
    if op == "Is": return self.boolv(self.is_(a, b))
    if op == "IsNot": return self.boolv(self.neg(self.is_(a, b)))
    if op == "Eq": return self.boolv(self.M.eq_dispatch(self, a, b))
    if op == "NotEq": return self.boolv(self.neg(self.M.eq_dispatch(self, a, b)))
    if op == "In": return self.boolv(self.M.contains(self, b, a))
    if op == "NotIn": return self.boolv(self.neg(self.M.contains(self, b, a)))
    return self.boolv(self.M.order(self, op, a, b))
  def ev_Call(self, e, cx):
    if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
      return SuperV(cx.cls, self.lookup_first_arg(cx))
    f = self.ev(e.func, cx)
    args = []
    for a in e.args:
      if isinstance(a, ast.Starred): args.extend(self.M.concrete_items(self, self.ev(a.value, cx)))
      else: args.append(self.ev(a, cx))
    kwargs = {}
    for k in e.keywords:
      if k.arg is None:
        v = self.deref(self.ev(k.value, cx))
        if isinstance(v, Sym) and v.ty.kind == "rec":
          kwargs.update({f: self.getattr(v, f) for f, _ in rec_fields(v.ty)})
          continue
        c = self.content(v) if isinstance(v, LocRef) else None
        if isinstance(c, ContC) and c.ty is not None and c.ty.kind == "rec":
          kwargs.update({f: self.getattr(v, f) for f, _ in rec_fields(c.ty)})
          continue
        if not isinstance(c, PyDictC): raise Unsupported("** of a symbolic mapping")
        kwargs.update(c.d)
      else: kwargs[k.arg] = self.ev(k.value, cx)
    return self.call(f, args, kwargs)
  def lookup_first_arg(self, cx):
    fid = cx.fid
    while fid is not None:
      fr = self.st.frames[fid]
      if "self" in fr: return fr["self"]
      if "cls" in fr: return fr["cls"]
      fid = fr.get("$parent")
    raise Unsupported("super() without self")
  def ev_Await(self, e, cx): return self.await_(self.ev(e.value, cx))
  def ev_Lambda(self, e, cx): return self.make_fn(e, cx, "<lambda>")
  def ev_NamedExpr(self, e, cx):
    v = self.ev(e.value, cx)
    fid = cx.fid
    while self.st.frames[fid].get("$comp"): fid = self.st.frames[fid]["$parent"]
    self.st.frames[fid][e.target.id] = v
    return v
  def ev_GeneratorExp(self, e, cx): return GenV(e, cx.fid, cx.module, cx.cls)
  def ev_SetComp(self, e, cx): return self.M.construct_type(self, "set", [GenV(e, cx.fid, cx.module, cx.cls)], {})
  def ev_ListComp(self, e, cx): return self.M.construct_type(self, "list", [GenV(e, cx.fid, cx.module, cx.cls)], {})
  def ev_DictComp(self, e, cx): return self.M.dict_comp(self, GenV(e, cx.fid, cx.module, cx.cls))
  def ev_JoinedStr(self, e, cx):
    parts = []
    for v in e.values:
      if isinstance(v, ast.Constant): parts.append(v.value)
      else:
        if v.conversion == 114 or v.format_spec is not None:
          parts.append(self.fresh("fmt", STR)); continue
        try: parts.append(self.M.str_of(self, self.ev(v.value, cx)))
        except Unsupported: parts.append(self.fresh("fmt", STR))
    r = ""
    for p in parts: r = self.M.binop(self, "Add", r, p)
    return r
  def ev_Yield(self, e, cx):
    v = None if e.value is None else self.ev(e.value, cx)
    if not self.with_yield: raise Unsupported("yield")
    return self.with_yield[-1](self, v)
  def ev_Starred(self, e, cx): raise Unsupported("starred expression")

class Ctx:
  __slots__ = ("fid", "module", "cls", "fn")
  def __init__(self, fid, module, cls, fn=None): self.fid, self.module, self.cls, self.fn = fid, module, cls, fn
class CtxMgrV:
  def __init__(self, fn, args, kwargs): self.fn, self.args, self.kwargs = fn, args, kwargs
class GenCall:
  """a call of a generator function"""
  def __init__(self, fn, args, kwargs): self.fn, self.args, self.kwargs = fn, args, kwargs
