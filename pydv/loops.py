"""Loops: unrolled when concrete, otherwise cut by an inductive invariant.

The invariant is a conjunction of candidates; every candidate must hold on entry and be preserved by an arbitrary
iteration (checked with the solver on the real body), otherwise it is dropped, together with everything that relied
on it, until the rest is inductive (Houdini).  Candidates come from two places: the pointwise effect of the body
itself (derived here), and the templates a contract states (itp.loop_hints).  Since every candidate is checked, a
wrong one can only make a proof fail."""
import ast
import z3
from .core import *
from . import models as M

MAXV = 6

class LoopCtx:
  def __init__(self, itp, node, seg, pre, entries, fid):
    self.itp, self.node, self.seg, self.pre, self.entries, self.fid = itp, node, seg, pre, entries, fid
    self._index = None
  @property
  def index(self):
    if self._index is None: raise Unsupported("no position in this loop")
    return self._index
  @index.setter
  def index(self, v): self._index = v
  def set_index(self, seg, v): self._index = None if getattr(seg, "filtered", False) else v
  # helpers for templates
  def local_keys(self, pred):
    """modified containers / locals whose type satisfies pred"""
    return [(k, ty) for k, ty in self.entries.items() if isinstance(ty, Ty) and pred(ty)]
  def term(self, key): return entry_term(self.itp, key, self.entries[key])
  def pre_term(self, key):
    saved = self.itp.st
    self.itp.st = self.pre.copy()
    try: return entry_term(self.itp, key, self.entries[key])
    finally: self.itp.st = saved
  def in_pre(self, fn):
    saved = self.itp.st
    self.itp.st = self.pre.copy()
    try: return fn()
    finally: self.itp.st = saved

# ---------------------------------------------------------------- state digest (cache key)
def dg(itp, v):
  if isinstance(v, Sym): return ("s", v.t.get_id())
  if isinstance(v, LocRef): return ("l", v.root[0], *(x.get_id() if z3.is_expr(x) else x for x in v.root[1:]), tuple((p[0], p[1].get_id() if z3.is_expr(p[1]) else p[1]) for p in v.path))
  if isinstance(v, ObjRef): return ("o", v.addr)
  if isinstance(v, tuple): return tuple(dg(itp, x) for x in v)
  if isinstance(v, (int, str, float, bool, bytes)) or v is None: return v
  if isinstance(v, ViewV): return ("v", v.kind, dg(itp, v.loc))
  if isinstance(v, BoundV): return ("b", id(v.fn.node) if isinstance(v.fn, FnV) else 0, dg(itp, v.self_))
  if isinstance(v, FnV): return ("f", id(v.node), v.closure)
  return ("?", type(v).__name__)
def digest(itp):
  st = itp.st
  out = [tuple(f.get_id() for f, _ in st.pc)]
  for a, c in st.cells.items():
    if isinstance(c, ContC): out.append((a, c.kind, None if c.t is None else c.t.get_id()))
    elif isinstance(c, PyListC): out.append((a, tuple(dg(itp, x) for x in c.items)))
    elif isinstance(c, PyDictC): out.append((a, tuple((str(k), dg(itp, x)) for k, x in c.d.items())))
    elif isinstance(c, ObjC): out.append((a, id(c.cls), tuple((k, dg(itp, x)) for k, x in c.fields.items())))
    elif isinstance(c, FwdC): out.append((a, dg(itp, c.loc)))
    else: out.append((a, type(c).__name__))
  for f, fr in st.frames.items(): out.append((f, tuple((k, dg(itp, x)) for k, x in fr.items())))
  for k, t in st.farr.items(): out.append((k, t.get_id()))
  for k, t in st.ghost.items(): out.append((k, t.get_id() if z3.is_expr(t) else dg(itp, t)))
  return tuple(out)

# ---------------------------------------------------------------- modified locations
def same(itp, a, b):
  if a is b: return True
  if isinstance(a, Sym) and isinstance(b, Sym): return a.ty is b.ty and a.t.eq(b.t)
  if isinstance(a, LocRef) and isinstance(b, LocRef): return dg(itp, a) == dg(itp, b)
  if isinstance(a, ObjRef) and isinstance(b, ObjRef): return a.addr == b.addr
  if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(itp, x, y) for x, y in zip(a, b))
  if isinstance(a, Poison) and isinstance(b, Poison): return True
  if type(a) is type(b):
    try: return bool(a == b)
    except Exception: return False
  return False

def safe_type(itp, v):
  if isinstance(v, Poison): return "poison"
  try: return itp.type_of(v)
  except Unsupported: return "poison"

def merge_ty(a, b):
  if a == "poison" or b == "poison": return "poison"
  if a is None: return b
  if b is None: return a
  if a is b: return a
  if is_container(a) or is_container(b):
    if a.kind == b.kind:
      args = [merge_ty(x, y) for x, y in zip(a.args, b.args)]
      return "poison" if "poison" in args else Ty(a.kind, *args)
    if {a.kind, b.kind} & {"none"}: return UNION(a, b)
    return "poison"
  if {a, b} == {INT, BOOL} : return UNION(a, b)
  return UNION(a, b)

def diff(itp, pre, post, out):
  """adds changed locations to out: key -> type"""
  saved = itp.st
  itp.st = post
  try:
    for a, c in pre.cells.items():
      d = post.cells.get(a)
      if d is c: continue
      key = ("cell", a)
      if isinstance(c, ContC) and isinstance(d, ContC):
        if c.ty is d.ty and (c.t is None or c.t.eq(d.t)): continue
        out[key] = merge_ty(out.get(key) or c.ty, d.ty)
      elif isinstance(c, (PyListC, PyDictC)) and isinstance(d, type(c)):
        x = c.items if isinstance(c, PyListC) else tuple(c.d.items())
        y = d.items if isinstance(d, PyListC) else tuple(d.d.items())
        if same(itp, tuple(x), tuple(y)): continue
        t = safe_type(itp, LocRef(key))
        itp.st = pre; t0 = safe_type(itp, LocRef(key)); itp.st = post
        out[key] = merge_ty(merge_ty(out.get(key), t0), t)
      elif isinstance(c, (PyListC, PyDictC)) and isinstance(d, ContC):
        itp.st = pre; t0 = safe_type(itp, LocRef(key)); itp.st = post
        out[key] = merge_ty(merge_ty(out.get(key), t0), d.ty)
      elif isinstance(c, ContC) and isinstance(d, (PyListC, PyDictC)):
        out[key] = merge_ty(out.get(key) or c.ty, safe_type(itp, LocRef(key)))
      elif isinstance(c, ObjC) and isinstance(d, ObjC):
        for f in set(c.fields) | set(d.fields):
          if f in c.fields and f in d.fields and same(itp, c.fields[f], d.fields[f]): continue
          k2 = ("obj", a, f)
          t = safe_type(itp, d.fields[f]) if f in d.fields else "poison"
          itp.st = pre
          t0 = safe_type(itp, c.fields[f]) if f in c.fields else "poison"
          itp.st = post
          out[k2] = merge_ty(merge_ty(out.get(k2), t0), t)
      elif isinstance(c, FwdC) and isinstance(d, FwdC):
        if dg(itp, c.loc) != dg(itp, d.loc): out[key] = "poison"
      elif isinstance(d, DeadC): out[key] = "dead"
      else: out[key] = "poison"
    for k in set(pre.farr) | set(post.farr):
      if k not in pre.farr:
        base = z3.Const(f"{k[1]}@{k[0].split(':')[-1]}", post.farr[k].sort())
        if base.eq(post.farr[k]): continue
        out[("farr", k)] = "farr"
      elif not pre.farr[k].eq(post.farr[k]): out[("farr", k)] = "farr"
    for k in set(pre.ghost) | set(post.ghost):
      x, y = pre.ghost.get(k), post.ghost.get(k)
      if x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)): continue
      out[("ghost", k)] = "ghost"
    for f, fr in pre.frames.items():
      fr2 = post.frames.get(f, {})
      for n in set(fr) | set(fr2):
        if n.startswith("$"): continue
        if n in fr and n in fr2 and same(itp, fr[n], fr2[n]): continue
        key = ("var", f, n)
        if n not in fr or n not in fr2: out[key] = "poison"; continue
        t = safe_type(itp, fr2[n]); itp.st = pre; t0 = safe_type(itp, fr[n]); itp.st = post
        out[key] = merge_ty(merge_ty(out.get(key), t0), t)
  finally: itp.st = saved

def coerce_entry(itp, key, ty):
  """make the pre-state value of a modified location typed"""
  if key[0] == "cell" and isinstance(ty, Ty):
    c = itp.st.cells[key[1]]
    if isinstance(c, ContC) and c.ty is ty: return
    if isinstance(c, ContC) and c.ty is None: itp.st.cells[key[1]] = ContC(ty.kind, ty, itp.empty_term(ty)); return
    if isinstance(c, (PyListC, PyDictC)): M.retype(itp, LocRef(key), ty); return
    raise Unsupported(f"container changes type in a loop: {c.ty} -> {ty}")

def havoc(itp, entries, tag):
  """fresh values for all modified locations; returns key -> fresh term (or None)"""
  out = {}
  for key, ty in sorted(entries.items(), key=lambda kv: str(kv[0])):
    if key[0] == "cell":
      if ty == "dead": itp.st.cells[key[1]] = DeadC("overwritten in a loop"); continue
      if ty == "poison" or ty is None: raise Unsupported("container of mixed content changed in a loop")
      c = itp.st.cells[key[1]]
      t = itp.fresh_const(tag + "c", sort(ty))
      itp.st.cells[key[1]] = ContC(ty.kind, ty, t)
      if ty.kind == "list": itp.assume(l_len(ty, t) >= 0)
      out[key] = t
    elif key[0] == "obj":
      c = itp.st.cells[key[1]]
      if ty == "poison" or ty is None: v = Poison(f"field {key[2]} changed in a loop")
      else:
        t = itp.fresh_const(tag + key[2], sort(ty)); v = itp.value_of(t, ty); out[key] = t
      itp.st.cells[key[1]] = ObjC(c.cls, {**c.fields, key[2]: v})
    elif key[0] == "farr":
      old = itp.fld_arr(*key[1])
      t = itp.fresh_const(tag + key[1][1], old.sort())
      itp.st.farr[key[1]] = t; out[key] = t
    elif key[0] == "ghost":
      old = itp.st.ghost.get(key[1])
      if z3.is_expr(old):
        t = itp.fresh_const(tag + "g", old.sort()); itp.st.ghost[key[1]] = t; out[key] = t
      else: itp.st.ghost.pop(key[1], None)
    elif key[0] == "var":
      if ty == "poison" or ty is None: itp.st.frames[key[1]][key[2]] = Poison(f"{key[2]} is only set inside a loop")
      else:
        t = itp.fresh_const(tag + key[2], sort(ty)); itp.st.frames[key[1]][key[2]] = itp.value_of(t, ty); out[key] = t
  return out

def entry_term(itp, key, ty):
  """term of a modified location in the current state"""
  st = itp.st
  if key[0] == "cell": return itp.cell_term(st.cells[key[1]], ty)
  if key[0] == "obj": return itp.to_term(st.cells[key[1]].fields[key[2]], ty)
  if key[0] == "farr": return itp.fld_arr(*key[1])
  if key[0] == "ghost": return st.ghost.get(key[1])
  if key[0] == "var": return itp.to_term(st.frames[key[1]][key[2]], ty)

# ---------------------------------------------------------------- derived candidates
def comps(ty, t):
  """array-like components of a location's term: [(tag, array term, key type)]"""
  if ty == "farr": return [("farr", t, None)]
  if not isinstance(ty, Ty): return []
  if ty.kind == "set": return [("set", t, ty.args[0])]
  if ty.kind == "map": return [("dom", m_dom(ty, t), ty.args[0]), ("val", m_val(ty, t), ty.args[0])]
  return []

def stores(t, base):
  """[(key, value)] (innermost first) when t is a chain of stores on base, else None"""
  out = []
  while z3.is_app_of(t, z3.Z3_OP_STORE):
    out.append((t.arg(1), t.arg(2))); t = t.arg(0)
  if not t.eq(base): return None
  return out[::-1]

def new_consts(e, n):
  """constants created after counter n"""
  r = []
  for c in M.const_nodes(e).values():
    nm = c.decl().name()
    if "!" in nm:
      try:
        if int(nm.rsplit("!", 1)[1]) > n: r.append(c)
      except ValueError: pass
  return r

def derive(itp, lc, seg, hterms, outs, hcount, npc, pre):
  """candidates from the effect of one arbitrary iteration"""
  cands = []
  b = seg.b if seg is not None else None
  pre_terms = {}
  saved = itp.st
  itp.st = pre.copy()
  for key, ty in lc.entries.items():
    if key in hterms:
      try: pre_terms[key] = entry_term(itp, key, ty)
      except Unsupported: pass
  itp.st = saved
  subs = [(hterms[k], pre_terms[k]) for k in hterms if k in pre_terms and pre_terms[k] is not None]
  def topre(e): return z3.substitute(e, *subs) if subs else e
  normal = []
  for o in outs:
    if o.kind not in ("normal", "continue"): continue
    conds = [f for f, ax in o.st.pc[npc:] if not ax]
    normal.append((z3.And(*conds) if conds else z3.BoolVal(True), o))
  for key, ty in lc.entries.items():
    if key not in hterms or key not in pre_terms: continue
    h, p0 = hterms[key], pre_terms[key]
    posts = []
    for cond, o in normal:
      itp.st = o.st
      try: posts.append((cond, entry_term(itp, key, ty)))
      except Unsupported: posts = None; break
      finally: itp.st = saved
    if posts is None: continue
    nm = str(key[-1]) if key[0] != "farr" else str(key[1][1])
    def getter(key=key, ty=ty): return entry_term(itp, key, ty)
    # unchanged
    cands.append((f"same:{key}", lambda D, g=getter, p0=p0: g() == p0))
    if isinstance(ty, Ty) and ty.kind == "list" and seg is not None:
      cands += derive_list(itp, lc, seg, key, ty, h, p0, posts, getter, topre, hcount)
      continue
    if isinstance(ty, Ty) and ty.kind in ("int", "real"):
      cands.append((f"ge:{key}", lambda D, g=getter, p0=p0: g() >= p0))
      cands.append((f"le:{key}", lambda D, g=getter, p0=p0: g() <= p0))
      if seg is not None and seg.kind == "list":
        ds = [z3.simplify(t - h) for _, t in posts]
        if ds and all(z3.is_int_value(d) or z3.is_rational_value(d) for d in ds) and all(d.eq(ds[0]) for d in ds):
          cands.append((f"count:{key}", lambda D, g=getter, p0=p0, d=ds[0]: g() == p0 + d * lc.index))
      continue
    if isinstance(ty, Ty) and ty.kind == "bool" and seg is not None:
      for val in (True, False):
        hit = [c for c, t in posts if (z3.is_true(z3.simplify(t)) if val else z3.is_false(z3.simplify(t)))]
        if not hit or any(new_consts(c, hcount) for c in hit): continue
        if not all(t.eq(h) or (z3.is_true(z3.simplify(t)) if val else z3.is_false(z3.simplify(t))) for _, t in posts): continue
        cond = topre(z3.Or(*hit))
        x = z3.Const("p!b", b.sort())
        def f1(D, g=getter, cond=cond, x=x, val=val): return M.mk_forall([x], z3.Implies(z3.And(D(x), z3.substitute(cond, (b, x))), g() == val), [lc.dpat(x)])
        def f2(D, g=getter, cond=cond, x=x, val=val, p0=p0): return z3.Implies(g() == val, z3.Or(p0 == val, z3.Exists([x], z3.And(D(x), z3.substitute(cond, (b, x))))))
        cands += [(f"flag1:{key}", f1), (f"flag2:{key}", f2)]
      continue
    if seg is None: continue
    for ci, (tag, harr, kty) in enumerate(comps(ty, h)):
      p0a = comps(ty, p0)[ci][1]
      writes, ok = [], True
      for cond, t in posts:
        ta = comps(ty, t)[ci][1]
        w = stores(ta, harr)
        if w is None: ok = False; break
        writes.append((cond, w))
      if not ok: continue
      def geta(g=getter, ty=ty, ci=ci): return comps(ty, g())[ci][1]
      cands.append((f"samec:{key}:{tag}", lambda D, g=geta, p0a=p0a: g() == p0a))
      keys = [k for _, w in writes for k, _ in w]
      if not keys: continue
      ksort = harr.sort().domain()
      if all(k.eq(b) for k in keys):
        k = z3.Const("k!pw", ksort)
        val = z3.Select(p0a, k)
        bad = False
        for cond, w in writes:
          if not w: continue
          v = topre(w[-1][1]); c = topre(cond)
          if new_consts(v, hcount) or new_consts(c, hcount): bad = True; break
          val = z3.If(z3.substitute(c, (b, k)), z3.substitute(v, (b, k)), val)
        if not bad:
          val = z3.simplify(val)
          cands.append((f"pw:{key}:{tag}", lambda D, g=geta, val=val, k=k, p0a=p0a: M.mk_forall([k], z3.Select(g(), k) == z3.If(D(k), val, z3.Select(p0a, k)), [[z3.Select(g(), k)], [z3.Select(p0a, k)]])))
        cands.append((f"fr:{key}:{tag}", lambda D, g=geta, k=k, p0a=p0a: M.mk_forall([k], z3.Or(D(k), z3.Select(g(), k) == z3.Select(p0a, k)), [[z3.Select(g(), k)], [z3.Select(p0a, k)]])))
      elif all(not new_consts(k, hcount) for k in keys):
        k = z3.Const("k!pj", ksort); x = z3.Const("p!pj", b.sort())
        uniq = []
        for kk in keys:
          if not any(kk.eq(u) for u in uniq): uniq.append(kk)
        uniq = [topre(u) for u in uniq]
        def frame(D, g=geta, k=k, x=x, p0a=p0a, uniq=uniq):
          return M.mk_forall([k], z3.Or(z3.Select(g(), k) == z3.Select(p0a, k), z3.Exists([x], z3.And(D(x), z3.Or(*[z3.substitute(u, (b, x)) == k for u in uniq])))), [[z3.Select(g(), k)], [z3.Select(p0a, k)]])
        cands.append((f"frp:{key}:{tag}", frame))
        if harr.sort().range() == z3.BoolSort():
          adds = [(cond, kk) for cond, w in writes for kk, v in w if z3.is_true(z3.simplify(v))]
          dels = [(cond, kk) for cond, w in writes for kk, v in w if z3.is_false(z3.simplify(v))]
          for lst, val in ((adds, True), (dels, False)):
            if lst and not (dels if val else adds) and not any(new_consts(c, hcount) for c, _ in lst):
              alts = [(topre(c), topre(kk)) for c, kk in lst]
              def f1(D, g=geta, alts=alts, x=x, val=val):
                return z3.And(*[M.mk_forall([x], z3.Implies(z3.And(D(x), z3.substitute(c, (b, x))), z3.Select(g(), z3.substitute(kk, (b, x))) == val), [lc.dpat(x)]) for c, kk in alts])
              def f2(D, g=geta, alts=alts, x=x, val=val, k=k, p0a=p0a):
                return M.mk_forall([k], z3.Implies(z3.Select(g(), k) == val, z3.Or(z3.Select(p0a, k) == val, *[z3.Exists([x], z3.And(D(x), z3.substitute(c, (b, x)), z3.substitute(kk, (b, x)) == k)) for c, kk in alts])), [[z3.Select(g(), k)]])
              def f3(D, g=geta, val=val, k=k, p0a=p0a):
                return M.mk_forall([k], z3.Implies(z3.Select(p0a, k) == val, z3.Select(g(), k) == val), [[z3.Select(g(), k)], [z3.Select(p0a, k)]])
              cands += [(f"pj1:{key}:{tag}:{val}", f1), (f"pj2:{key}:{tag}:{val}", f2), (f"mono:{key}:{tag}:{val}", f3)]
  return cands

def derive_list(itp, lc, seg, key, ty, h, p0, posts, getter, topre, hcount):
  cands = []
  n_h, a_h, n0, a0 = l_len(ty, h), l_arr(ty, h), l_len(ty, p0), l_arr(ty, p0)
  k = z3.Int("k!li")
  cands.append((f"prefix:{key}", lambda D: z3.And(l_len(ty, getter()) >= n0, M.mk_forall([k], z3.Implies(z3.And(0 <= k, k < n0), z3.Select(l_arr(ty, getter()), k) == z3.Select(a0, k)), [[z3.Select(l_arr(ty, getter()), k)]]))))
  if seg.kind != "list": return cands
  ds = [z3.simplify(l_len(ty, t) - n_h) for _, t in posts]
  cands.append((f"lenle:{key}", lambda D: l_len(ty, getter()) <= n0 + lc.index))
  if ds and all(z3.is_int_value(d) and d.as_long() == 1 for d in ds):
    cands.append((f"len:{key}", lambda D: l_len(ty, getter()) == n0 + lc.index))
    val, bad = None, False
    for cond, t in posts:
      w = stores(l_arr(ty, t), a_h)
      if w is None or len(w) != 1 or not z3.simplify(w[0][0] - n_h).eq(z3.IntVal(0)): bad = True; break
      v, c = topre(w[0][1]), topre(cond)
      if new_consts(v, hcount) or new_consts(c, hcount): bad = True; break
      v = z3.substitute(v, (seg.b, k)); c = z3.substitute(c, (seg.b, k))
      val = v if val is None else z3.If(c, v, val)
    if not bad and val is not None:
      cands.append((f"items:{key}", lambda D, val=val: M.mk_forall([k], z3.Implies(z3.And(0 <= k, k < lc.index), z3.Select(l_arr(ty, getter()), n0 + k) == val), [[z3.Select(l_arr(ty, getter()), n0 + k)]])))
      cands.append((f"itemsk:{key}", lambda D, val=val: M.mk_forall([k], z3.Implies(z3.And(n0 <= k, k < n0 + lc.index), z3.Select(l_arr(ty, getter()), k) == z3.substitute(val, (k, k - n0))), [[z3.Select(l_arr(ty, getter()), k)]])))
  elif ds and all(z3.is_int_value(d) and d.as_long() == 0 for d in ds):
    # in-place writes at the loop index
    k2 = z3.Int("k!lw")
    cands.append((f"len0:{key}", lambda D: l_len(ty, getter()) == n0))
    cands.append((f"rest:{key}", lambda D: M.mk_forall([k2], z3.Implies(k2 >= lc.index, z3.Select(l_arr(ty, getter()), k2) == z3.Select(a0, k2)), [[z3.Select(l_arr(ty, getter()), k2)]])))
  return cands

# ---------------------------------------------------------------- the rule
def eval_cand(itp, fn, D):
  n = len(itp.st.pc)
  f = fn(D)
  return f

def analyse(itp, lc, seg, run_body, fid):
  """finds modified locations and an inductive set of candidates. run_body(): executes guard+body once"""
  pre = itp.st.copy()
  entries = {}
  for rnd in range(8):
    st = pre.copy()
    saved = itp.st; itp.st = st
    for k, ty in entries.items(): coerce_entry(itp, k, ty)
    coerced = itp.st.copy()
    lc.pre, lc.entries = coerced, entries
    havoc(itp, entries, "h_")
    start_iteration(itp, lc, seg)
    base = itp.st.copy(); itp.st = saved
    outs = itp.explore(run_body, base)
    itp.st.counter = max([itp.st.counter] + [o.st.counter for o in outs])
    new = dict(entries)
    for o in outs:
      if o.kind in ("normal", "continue"): diff(itp, base, o.st, new)
    # a name both rebound and mutated in place would break aliasing
    for k in new:
      if k[0] in ("var", "obj") and isinstance(new[k], Ty) and is_container(new[k]):
        v = pre.frames[k[1]].get(k[2]) if k[0] == "var" else pre.cells[k[1]].fields.get(k[2])
        if isinstance(v, LocRef):
          itp.st = pre.copy(); n = itp.norm(v); itp.st = saved
          if n.root in [e for e in new if e[0] == "cell"]: raise Unsupported("container both rebound and changed in place in a loop")
    if new == entries: break
    entries = new
  else: raise Unsupported("loop effects do not stabilise")
  return pre, entries

def start_iteration(itp, lc, seg):
  """arbitrary progress: ghost done set / index, current element seg.b"""
  if seg is None: return
  if seg.kind == "set":
    lc.Dc = itp.fresh_const("done", z3.ArraySort(seg.b.sort(), z3.BoolSort()))
    x = z3.Const("x!dn", seg.b.sort())
    g = z3.substitute(seg.guard, (seg.b, x))
    itp.assume(M.mk_forall([x], z3.Implies(z3.Select(lc.Dc, x), g), [z3.Select(lc.Dc, x)]))
    itp.assume(seg.guard, axiom=True)
    itp.assume(z3.Not(z3.Select(lc.Dc, seg.b)), axiom=True)
  else:
    lc.set_index(seg, seg.b)
    itp.assume(seg.guard, axiom=True)

def D_now(lc, seg):
  if seg.kind == "set": return lambda p: z3.Select(lc.Dc, p)
  return lambda p: z3.And(z3.substitute(seg.guard, (seg.b, p)), p < seg.b)
def D_next(lc, seg):
  if seg.kind == "set": return lambda p: z3.Or(z3.Select(lc.Dc, p), p == seg.b)
  return lambda p: z3.And(z3.substitute(seg.guard, (seg.b, p)), p < seg.b + 1)

def houdini(itp, lc, seg, pre, entries, run_body):
  itp.quiet += 1
  saved = itp.st
  try:
    st = pre.copy(); itp.st = st
    for k, ty in entries.items(): coerce_entry(itp, k, ty)
    coerced = itp.st.copy()
    lc.pre, lc.entries = coerced, entries
    hc = itp.st.counter
    # derive candidates from an unconstrained iteration
    itp.st = coerced.copy()
    hterms = havoc(itp, entries, "h_")
    start_iteration(itp, lc, seg)
    lc.dpat = (lambda x: [z3.Select(lc.Dc, x)]) if seg is not None and seg.kind == "set" else (lambda x: [p if True else p for p in [z3.substitute(q, (seg.b, x)) for q in seg.pats]] if seg is not None else [])
    base = itp.st.copy(); npc = len(base.pc); hcount = base.counter
    outs = itp.explore(run_body, base)
    cands = derive(itp, lc, seg, hterms, outs, hcount, npc, coerced)
    derived = {n for n, _ in cands}
    for hint in itp.loop_hints:
      itp.st = base.copy()
      cands += hint(lc) or []
    def holds(name, f, div):
      fs = itp.st.formulas()
      if name in derived: return itp.solver.quick(fs, f, 250 if name.startswith("same") else 700)
      ok = itp.solver.prove(fs, f, itp.solver.timeout // div, full=itp.full_candidates)[0] == "proved"
      if not ok and not itp.full_candidates: itp.skipped_candidates += 1
      return ok
    maxc = max([o.st.counter for o in outs] + [hcount])
    # entry
    itp.st = coerced.copy(); itp.st.counter = maxc
    if seg is not None: lc.set_index(seg, z3.IntVal(0))
    live = []
    D0 = (lambda p: z3.BoolVal(False))
    for name, fn in cands:
      try:
        n0 = len(itp.st.pc)
        f = fn(D0)
        if f is None: continue
        if holds(name, f, 3): live.append((name, fn))
        elif itp.debug: print("  init drop", name)
      except Unsupported: continue
    # step
    for rnd in range(12):
      itp.st = coerced.copy(); itp.st.counter = maxc
      havoc(itp, entries, "h_")
      start_iteration(itp, lc, seg)
      D = D_now(lc, seg) if seg is not None else None
      for name, fn in live: itp.assume(fn(D))
      base = itp.st.copy()
      outs = itp.explore(run_body, base)
      nxt = []
      for name, fn in live:
        ok = True
        for o in outs:
          if o.kind not in ("normal", "continue"): continue
          itp.st = o.st.copy()
          if seg is not None and seg.kind == "list": lc.set_index(seg, seg.b + 1)
          try: f = fn(D_next(lc, seg) if seg is not None else None)
          except Unsupported: ok = False; break
          finally:
            if seg is not None and seg.kind == "list": lc.set_index(seg, seg.b)
          if not holds(name, f, 2):
            ok = False
            if itp.debug: print("  step drop", name)
            break
        if ok: nxt.append((name, fn))
      if len(nxt) == len(live): break
      live = nxt
    else: live = []
    return live, maxc
  finally:
    itp.quiet -= 1
    itp.st = saved

def get_analysis(itp, node, lc, seg, run_body, cx):
  key = (id(node), seg.b.get_id() if seg is not None else 0, len(itp.loop_hints), digest(itp))
  hit = itp.loop_cache.get(key)
  if hit is None:
    itp.quiet += 1
    try: pre, entries = analyse(itp, lc, seg, run_body, cx.fid)
    finally: itp.quiet -= 1
    live, maxc = houdini(itp, lc, seg, pre, entries, run_body)
    hit = (entries, live, maxc, pre, lc)
    itp.loop_cache[key] = hit
    itp.loops_cut.append((cx.module.name, node.lineno, [n for n, _ in live]))
  return hit

def for_loop(itp, s, cx):
  it = itp.ev(s.iter, cx)
  segs = M.segments(itp, it)
  if any(not isinstance(seg, list) for seg in segs) and as_shape(itp, s, cx, it, segs): return
  for i, seg in enumerate(segs):
    if isinstance(seg, list):
      try:
        for x in seg:
          itp.assign(s.target, x, cx)
          try: itp.ex_body(s.body, cx)
          except ContinueEx: pass
      except BreakEx: return
    else:
      if sym_for(itp, s, cx, seg): return
  itp.ex_body(s.orelse, cx)

def as_shape(itp, s, cx, it, segs):
  """runs a loop of a known shape as the comprehension that means the same; False if it has none"""
  from . import shapes
  r = itp.shapes.get(id(s), 0) if hasattr(itp, "shapes") else 0
  if not hasattr(itp, "shapes"): itp.shapes, itp.shape_nodes = {}, {}
  if r == 0:
    r = itp.shapes[id(s)] = shapes.shape_of(s); itp.shape_nodes[id(s)] = s
  if r is None: return False
  fr = itp.st.frames[cx.fid]; k = r.kind
  if k in ("collect", "flag") and "." not in r.k["x"] and r.k["x"] not in fr: return False
  if k in ("find", "smallest") and any(not isinstance(g, list) and isinstance(g.value, Sym) and g.value.ty.kind in ("union", "none") for g in segs): return False
  saved = itp.st.copy(); name = f"$it{len(fr)}"
  key = ("nodes", id(s), name)
  try:
    nodes = itp.shapes.get(key)
    if nodes is None:
      gens = shapes.comp(r, name); L = lambda t: ast.Load()
      if k == "collect" and r.k["how"] == "append": e = ast.ListComp(r.k["elt"], gens)
      elif k == "collect" and r.k["how"] == "add": e = ast.SetComp(r.k["elt"], gens)
      elif k == "collect": e = ast.DictComp(r.k["key"], r.k["elt"], gens)
      elif k == "flag":
        gs = [g for c in gens for g in c.ifs]
        for c in gens[:-1]: pass
        last = gens[-1].ifs; gens[-1].ifs = []
        if not last: return False
        e = ast.GeneratorExp(last[0] if len(last) == 1 else ast.BoolOp(ast.And(), last), gens)
      elif k == "find": e = ast.GeneratorExp(shapes.load(s.target), gens)
      else:
        args = ast.Lambda(ast.arguments([], [ast.arg(n) for n in ["$x"]], None, [], [], None, []), None)
        args.args.args[0].arg = "$x"; args.body = shapes.sub(r.k["key"], shapes.parts(s.target, ast.Name("$x", ast.Load())))
        e = (ast.GeneratorExp(shapes.load(s.target), gens) if gens[0].ifs else None, args)
      nodes = itp.shapes[key] = e
    fr = itp.st.frames[cx.fid]; fr[name] = it
    if k == "collect":
      v = itp.ev(nodes, cx); x = itp.ev(r.k["at"], cx)
      itp.call(itp.getattr(x, {"append": "extend", "add": "update", "item": "update"}[r.k["how"]]), [v])
      done = None
    elif k == "flag": done = r.k["body"] if itp.truth(M.b_any(itp, [itp.ev(nodes, cx)], {})) else None
    else:
      if k == "find": v = M.b_next(itp, [itp.ev(nodes, cx), None], {})
      else: v = M.minmax(itp, [it if nodes[0] is None else itp.ev(nodes[0], cx)], {"key": itp.ev(nodes[1], cx), "default": None}, r.k["least"])
      v = itp.resolve(v) if isinstance(v, Sym) and v.ty.kind == "union" else v
      if itp.truth(itp.boolv(itp.is_(v, None))): done = "none"
      else: itp.assign(s.target, v, cx); done = r.k["body"]
  except Unsupported as e:
    itp.st = saved; itp.shapes[id(s)] = None
    return False
  fr = itp.st.frames[cx.fid]; fr.pop(name, None)
  if done == "none": itp.ex_body(s.orelse, cx); done = None
  elif done is not None:
    if k == "find" and isinstance(done[-1], ast.Break): itp.ex_body(done[:-1], cx)
    else: itp.ex_body(done, cx)
  fr = itp.st.frames[cx.fid]
  for n in r.own:
    if k not in ("find", "smallest") or done is None: fr.pop(n, None)
  return True

def bind_guard(itp, v):
  return v

def sym_for(itp, s, cx, seg):
  """returns True when left by break"""
  lc = LoopCtx(itp, s, seg, None, None, cx.fid)
  def body():
    itp.assign(s.target, seg.value, cx)
    try: itp.ex_body(s.body, cx)
    except ContinueEx: pass
  entries, live, maxc, pre, lc = get_analysis(itp, s, lc, seg, body, cx)
  itp.st.counter = max(itp.st.counter, maxc)
  for k, ty in entries.items(): coerce_entry(itp, k, ty)
  lc.pre, lc.entries = itp.st.copy(), entries
  which = itp.choose(2, "loop")
  live_dom = container_dom(itp, seg)
  havoc(itp, entries, "l_")
  if which == 0:
    if seg.kind == "set":
      D = lambda p: z3.substitute(seg.guard, (seg.b, p))
      lc.Dc = None
      if z3.is_app_of(seg.guard, z3.Z3_OP_SELECT) and seg.guard.arg(1).eq(seg.b): lc.Dc = seg.guard.arg(0)
      else:
        lc.Dc = itp.fresh_const("all", z3.ArraySort(seg.b.sort(), z3.BoolSort()))
        x = z3.Const("x!al", seg.b.sort())
        itp.assume(M.mk_forall([x], z3.Select(lc.Dc, x) == z3.substitute(seg.guard, (seg.b, x)), [[z3.Select(lc.Dc, x)]] + [[z3.substitute(p, (seg.b, x))] for p in seg.pats]))
      D = lambda p: z3.Select(lc.Dc, p)
    else:
      n = seg.size
      if n is None:
        # filtered generator over a list: all indices satisfying the guard are done
        D = lambda p: z3.substitute(seg.guard, (seg.b, p)); lc.index = None
      else:
        lc.set_index(seg, z3.simplify(n)); D = lambda p: z3.substitute(seg.guard, (seg.b, p))
    for name, fn in live: itp.assume(fn(D))
    return False
  start_iteration(itp, lc, seg)
  D = D_now(lc, seg)
  for name, fn in live: itp.assume(fn(D))
  d0 = container_dom(itp, seg)
  try: body()
  except BreakEx: return True
  d1 = container_dom(itp, seg)
  if d0 is not None and d1 is not None and not d0.eq(d1):
    if seg.kind == "list" or d0.sort() == z3.IntSort(): raise Unsupported("list changed while iterating over it")
    if itp.decide(d0 != d1): itp.raise_py(RuntimeError, "changed during iteration")
  raise PathEnd()

def container_dom(itp, seg):
  if seg.loc is None: return None
  try: c = itp.content(seg.loc)
  except Unsupported: return None
  if not isinstance(c, ContC) or c.ty is None: return None
  if c.ty.kind == "set": return c.t
  if c.ty.kind == "map": return m_dom(c.ty, c.t)
  if c.ty.kind == "list": return l_len(c.ty, c.t)

def event_loop(itp, s, cx, rule):
  """invariant rule: the scenario sets up an arbitrary state satisfying the invariant of the loop head, the body runs once, rule.after checks the
  invariant and the contract of the iteration. Locals that live across iterations are replaced by arbitrary values (rule.locals) or refused."""
  fr = itp.st.frames[cx.fid]
  assigned = {n.id for b in s.body + [s.test] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
  carried = sorted(assigned & set(fr))
  if carried:
    new = rule.locals(itp, {n: fr[n] for n in carried}) if hasattr(rule, "locals") else None
    if new is None: raise Unsupported("event loop carries " + ", ".join(carried))
    itp.st.frames[cx.fid].update(new)
  if hasattr(rule, "before"): rule.before(itp)
  if not itp.truth(itp.ev(s.test, cx)):
    itp.ex_body(s.orelse, cx)
    return
  try: itp.ex_body(s.body, cx)
  except ContinueEx: pass
  except BreakEx: return
  rule.after(itp)
  raise IterEnd()

def while_loop(itp, s, cx):
  rule = getattr(itp, "event_rule", None)
  if rule is not None and any(isinstance(n, (ast.Await, ast.AsyncWith, ast.AsyncFor)) for b in s.body for n in ast.walk(b)): return event_loop(itp, s, cx, rule)
  lc = LoopCtx(itp, s, None, None, None, cx.fid)
  for _ in range(getattr(itp, "unroll_while", 0)):    # a contract may ask for loops whose test is known to be run as they are
    t = itp.ev(s.test, cx)
    if not isinstance(t, bool): break
    if not t: itp.ex_body(s.orelse, cx); return
    try: itp.ex_body(s.body, cx)
    except ContinueEx: pass
    except BreakEx: return
  def body():
    if not itp.truth(itp.ev(s.test, cx)): raise PathEnd()
    try: itp.ex_body(s.body, cx)
    except ContinueEx: pass
  entries, live, maxc, pre, lc = get_analysis(itp, s, lc, None, body, cx)
  itp.st.counter = max(itp.st.counter, maxc)
  for k, ty in entries.items(): coerce_entry(itp, k, ty)
  lc.pre, lc.entries = itp.st.copy(), entries
  which = itp.choose(2, "loop")
  havoc(itp, entries, "l_")
  for name, fn in live: itp.assume(fn(None))
  if which == 0:
    if itp.truth(itp.ev(s.test, cx)): raise PathEnd()
    itp.ex_body(s.orelse, cx)
    return
  try: body()
  except BreakEx: return
  raise PathEnd()
