"""P01: PricedIdTracker and merge_priced_topics."""
import z3
from pydv.verify import *
from pydv.types import *
from pydv.core import *
from pydv import models as M

Q = "streamtasks.net.helpers:PricedIdTracker"
PID = REC("streamtasks.net.messages:PricedId", id=INT, cost=INT)
INNER = MAP(INT, INT)
OUTER = MAP(INT, INNER)
BEST = MAP(INT, INT)

def setup(itp):
  itp.rec_types["streamtasks.net.messages:PricedId"] = PID

class View:
  """abstraction of a tracker: registered(id, cost) count and advertised best"""
  def __init__(self, itp, outer, best): self.itp, self.o, self.b = itp, outer, best
  def inner(self, i): return sel(m_val(OUTER, self.o), i)
  def has(self, i): return sel(m_dom(OUTER, self.o), i)
  def cnt(self, i, c):
    inn = self.inner(i)
    return z3.If(z3.And(self.has(i), sel(m_dom(INNER, inn), c)), sel(m_val(INNER, inn), c), z3.IntVal(0))
  def known(self, i): return sel(m_dom(BEST, self.b), i)
  def best(self, i): return sel(m_val(BEST, self.b), i)
  def inv(self):
    """the class invariant: an id is known exactly while a route is registered; the advertised cost is the minimum"""
    i, c = z3.Int("i!inv"), z3.Int("c!inv")
    inn = self.inner(i)
    reg = z3.And(self.has(i), sel(m_dom(INNER, inn), c))
    return z3.And(
      M.mk_forall([i], self.has(i) == self.known(i), [[self.known(i)], [self.has(i)]]),
      M.mk_forall([i], z3.Implies(self.known(i), z3.And(self.has(i), sel(m_dom(INNER, inn), self.best(i)))), [[self.known(i)], [self.best(i)]]),
      M.mk_forall([i, c], z3.Implies(reg, z3.And(sel(m_val(INNER, inn), c) >= 1, self.best(i) <= c)), [[sel(m_dom(INNER, inn), c)], [sel(m_val(INNER, inn), c)]]))

def tracker(itp):
  cls = itp.cls_by_qual(Q)
  ot, bt = itp.fresh_const("map", sort(OUTER)), itp.fresh_const("best", sort(BEST))
  om, bm = itp.new_cont("map", OUTER, ot), itp.new_cont("map", BEST, bt)
  o = itp.new_obj(cls, {"_map": om, "_computed_map": bm})
  return o
def view(itp, o):
  return View(itp, itp.content(itp.getattr(o, "_map")).t, itp.content(itp.getattr(o, "_computed_map")).t)

def p(i, c): return mk(PID, i, c)
def pid(x): return r_get(PID, "id", x)
def pcost(x): return r_get(PID, "cost", x)

def hints_for(itp, o, v0, ids_term, mode):
  """loop templates: stated over the tracker's fields, the set of elements handled so far and locals of set type"""
  def hint(lc):
    if lc.seg is None or lc.seg.bty is not PID: return []
    cur = lambda: view(itp, o)
    i, c, x = z3.Int("i!h"), z3.Int("c!h"), z3.Const("x!h", sort(PID))
    out = [("tracker invariant", lambda D: cur().inv())]
    if mode == "add":
      out.append(("counts", lambda D: M.mk_forall([i, c], cur().cnt(i, c) == v0.cnt(i, c) + z3.If(D(p(i, c)), 1, 0), [[sel(m_dom(INNER, cur().inner(i)), c)], [D(p(i, c))], [sel(m_val(INNER, cur().inner(i)), c)]])))
      out.append(("monotone", lambda D: M.mk_forall([i], z3.Implies(v0.known(i), z3.And(cur().known(i), cur().best(i) <= v0.best(i))), [[cur().known(i)], [v0.known(i)], [cur().best(i)]])))
      for key, ty in lc.local_keys(lambda t: t is SET(PID)):
        s = lambda key=key: lc.term(key)
        out.append((f"reported when improved {key}", lambda D, s=s: M.mk_forall([i], z3.Implies(z3.And(cur().known(i), z3.Or(z3.Not(v0.known(i)), cur().best(i) < v0.best(i))), sel(s(), p(i, cur().best(i)))), [[cur().known(i)], [cur().best(i)]])))
        out.append((f"reports are improvements {key}", lambda D, s=s: M.mk_forall([x], z3.Implies(sel(s(), x), z3.And(cur().known(pid(x)), cur().best(pid(x)) <= pcost(x), z3.Or(z3.Not(v0.known(pid(x))), pcost(x) < v0.best(pid(x))))), [[sel(s(), x)]])))
    else:
      out.append(("counts", lambda D: M.mk_forall([i, c], cur().cnt(i, c) == v0.cnt(i, c) - z3.If(z3.And(D(p(i, c)), v0.cnt(i, c) > 0), 1, 0), [[sel(m_dom(INNER, cur().inner(i)), c)], [D(p(i, c))], [sel(m_val(INNER, cur().inner(i)), c)]])))
      out.append(("monotone", lambda D: M.mk_forall([i], z3.Implies(cur().known(i), z3.And(v0.known(i), cur().best(i) >= v0.best(i))), [[cur().known(i)], [v0.known(i)], [cur().best(i)]])))
      for key, ty in lc.local_keys(lambda t: t is SET(PID)):
        s = lambda key=key: lc.term(key)
        out.append((f"reported when worse {key}", lambda D, s=s: M.mk_forall([i], z3.Implies(z3.And(cur().known(i), cur().best(i) > v0.best(i)), sel(s(), p(i, cur().best(i)))), [[cur().known(i)], [cur().best(i)]])))
        out.append((f"reports are worse {key}", lambda D, s=s: M.mk_forall([x], z3.Implies(sel(s(), x), z3.And(v0.known(pid(x)), pcost(x) > v0.best(pid(x)))), [[sel(s(), x)]])))
      for key, ty in lc.local_keys(lambda t: t is SET(INT)):
        s = lambda key=key: lc.term(key)
        out.append((f"removed {key}", lambda D, s=s: M.mk_forall([i], sel(s(), i) == z3.And(v0.known(i), z3.Not(cur().known(i))), [[sel(s(), i)], [cur().known(i)], [v0.known(i)]])))
    return out
  return hint

def as_set(itp, v, el):
  ty, t = M.as_set(itp, v, el)
  return t if t is not None else empty_set(el)

def s_init(itp):
  setup(itp)
  o = itp.call(itp.cls_by_qual(Q))
  for f in ("_map", "_computed_map"): itp.check("a new tracker knows no route", itp.bz(M.is_empty(itp, itp.getattr(o, f))))

def s_add(itp):
  setup(itp)
  o = tracker(itp); v0 = view(itp, o)
  itp.assume(v0.inv())
  S = itp.fresh_const("ids", sort(SET(PID)))
  itp.loop_hints.append(hints_for(itp, o, v0, S, "add"))
  r = itp.call(itp.getattr(o, "add_many"), [itp.new_cont("set", SET(PID), S)])
  itp.loop_hints.pop()
  v1 = view(itp, o)
  i, c = itp.fresh_const("i", z3.IntSort()), itp.fresh_const("c", z3.IntSort())
  itp.check("add_many: invariant kept (known iff registered, best is the minimum)", v1.inv())
  itp.check("add_many: registers exactly the given routes", v1.cnt(i, c) == v0.cnt(i, c) + z3.If(sel(S, p(i, c)), 1, 0))
  R = as_set(itp, r, PID)
  itp.check("add_many: reports exactly the ids whose best cost changed, at the new cost",
    sel(R, p(i, c)) == z3.And(v1.known(i), v1.best(i) == c, z3.Or(z3.Not(v0.known(i)), v0.best(i) != c)))

def s_remove(itp):
  setup(itp)
  o = tracker(itp); v0 = view(itp, o)
  itp.assume(v0.inv())
  S = itp.fresh_const("ids", sort(SET(PID)))
  itp.loop_hints.append(hints_for(itp, o, v0, S, "remove"))
  r = itp.call(itp.getattr(o, "remove_many"), [itp.new_cont("set", SET(PID), S)])
  itp.loop_hints.pop()
  v1 = view(itp, o)
  i, c = itp.fresh_const("i", z3.IntSort()), itp.fresh_const("c", z3.IntSort())
  itp.check("remove_many: invariant kept (known iff registered, best is the minimum)", v1.inv())
  itp.check("remove_many: withdraws exactly the given routes", v1.cnt(i, c) == v0.cnt(i, c) - z3.If(z3.And(sel(S, p(i, c)), v0.cnt(i, c) > 0), 1, 0))
  rem, upd = M.unpack(itp, r, 2, False)
  REM, UPD = as_set(itp, rem, INT), as_set(itp, upd, PID)
  itp.check("remove_many: reports as removed exactly the ids that became unreachable", sel(REM, i) == z3.And(v0.known(i), z3.Not(v1.known(i))))
  itp.check("remove_many: reports exactly the ids whose best cost changed, at the new cost", sel(UPD, p(i, c)) == z3.And(v1.known(i), v1.best(i) == c, v0.known(i), v0.best(i) != c))

def merge_hints(itp):
  def hint(lc):
    if lc.seg is None or lc.seg.bty is not PID: return []
    out = []
    i, x = z3.Int("i!m"), z3.Const("x!m", sort(PID))
    for key, ty in lc.local_keys(lambda t: t.kind == "map" and t.args[0] is INT and t.args[1] is INT):
      m = lambda key=key: lc.term(key)
      m0 = lambda key=key: lc.pre_term(key)
      dom = lambda t, k, ty=ty: sel(m_dom(ty, t), k)
      val = lambda t, k, ty=ty: sel(m_val(ty, t), k)
      out.append((f"covers {key}", lambda D, m=m, dom=dom, val=val: M.mk_forall([x], z3.Implies(D(x), z3.And(dom(m(), pid(x)), val(m(), pid(x)) <= pcost(x))), [lc.dpat(x)])))
      out.append((f"only given {key}", lambda D, m=m, m0=m0, dom=dom, val=val: M.mk_forall([i], z3.Implies(dom(m(), i), z3.Or(D(p(i, val(m(), i))), z3.And(dom(m0(), i), val(m0(), i) == val(m(), i)))), [[dom(m(), i)]])))
      out.append((f"monotone {key}", lambda D, m=m, m0=m0, dom=dom, val=val: M.mk_forall([i], z3.Implies(dom(m0(), i), z3.And(dom(m(), i), val(m(), i) <= val(m0(), i))), [[dom(m0(), i)], [dom(m(), i)]])))
    return out
  return hint

def merged(R, given, i, c):
  """c is the cheapest of the given costs of i"""
  k = z3.Int("k!mg")
  return sel(R, p(i, c)) == z3.And(given(p(i, c)), M.mk_forall([k], z3.Implies(given(p(i, k)), c <= k), [[given(p(i, k))]] if z3.is_app_of(given(p(i, k)), z3.Z3_OP_SELECT) else ()))

def s_merge(itp):
  setup(itp)
  itp.loop_hints.append(merge_hints(itp))
  S = itp.fresh_const("topics", sort(SET(PID)))
  fn = itp.module_attr(itp.loader.module("streamtasks.net.helpers"), "merge_priced_topics")
  r = itp.call(fn, [itp.new_cont("set", SET(PID), S)])
  R = as_set(itp, r, PID)
  i, c, k = (itp.fresh_const(n, z3.IntSort()) for n in "ick")
  itp.check("merge: every result is one of the given routes", z3.Implies(sel(R, p(i, c)), sel(S, p(i, c))))
  itp.check("merge: no given route of the id is cheaper", z3.Implies(z3.And(sel(R, p(i, c)), sel(S, p(i, k))), c <= k))
  q = z3.Int("q!ex")
  itp.check("merge: every given id is in the result", z3.Implies(sel(S, p(i, k)), z3.Exists([q], sel(R, p(i, q)))))

def contract_add(itp, o):
  def model(itp_, args, kw):
    v0 = view(itp, o)
    itp.check("call of add_many: the invariant holds before", v0.inv())
    S = as_set(itp, args[1], PID)
    fresh_tracker(itp, o)
    v1 = view(itp, o)
    i, c = z3.Int("i!ca"), z3.Int("c!ca")
    R = itp.fresh_const("added", sort(SET(PID)))
    itp.assume(v1.inv())
    itp.assume(M.mk_forall([i, c], v1.cnt(i, c) == v0.cnt(i, c) + z3.If(sel(S, p(i, c)), 1, 0), [[sel(m_dom(INNER, v1.inner(i)), c)]]))
    itp.assume(M.mk_forall([i, c], sel(R, p(i, c)) == z3.And(v1.known(i), v1.best(i) == c, z3.Or(z3.Not(v0.known(i)), v0.best(i) != c)), [[sel(R, p(i, c))]]))
    itp.assume(M.mk_forall([i], z3.Implies(z3.And(v1.known(i), z3.Or(z3.Not(v0.known(i)), v0.best(i) != v1.best(i))), sel(R, p(i, v1.best(i)))), [[v1.known(i)], [v1.best(i)]]))
    itp.assume(M.mk_forall([i], z3.Implies(v0.known(i), z3.And(v1.known(i), v1.best(i) <= v0.best(i))), [[v0.known(i)], [v1.known(i)]]))
    return itp.new_cont("set", SET(PID), R)
  return model
def contract_remove(itp, o):
  def model(itp_, args, kw):
    v0 = view(itp, o)
    itp.check("call of remove_many: the invariant holds before", v0.inv())
    S = as_set(itp, args[1], PID)
    fresh_tracker(itp, o)
    v1 = view(itp, o)
    i, c = z3.Int("i!cr"), z3.Int("c!cr")
    REM, UPD = itp.fresh_const("removed", sort(SET(INT))), itp.fresh_const("updated", sort(SET(PID)))
    itp.assume(v1.inv())
    itp.assume(M.mk_forall([i, c], v1.cnt(i, c) == v0.cnt(i, c) - z3.If(z3.And(sel(S, p(i, c)), v0.cnt(i, c) > 0), 1, 0), [[sel(m_dom(INNER, v1.inner(i)), c)]]))
    itp.assume(M.mk_forall([i], sel(REM, i) == z3.And(v0.known(i), z3.Not(v1.known(i))), [[sel(REM, i)], [v0.known(i)], [v1.known(i)]]))
    itp.assume(M.mk_forall([i, c], sel(UPD, p(i, c)) == z3.And(v1.known(i), v1.best(i) == c, v0.known(i), v0.best(i) != c), [[sel(UPD, p(i, c))]]))
    itp.assume(M.mk_forall([i], z3.Implies(z3.And(v1.known(i), v0.known(i), v0.best(i) != v1.best(i)), sel(UPD, p(i, v1.best(i)))), [[v1.known(i)], [v1.best(i)]]))
    itp.assume(M.mk_forall([i], z3.Implies(v1.known(i), z3.And(v0.known(i), v1.best(i) >= v0.best(i))), [[v0.known(i)], [v1.known(i)]]))
    return (itp.new_cont("set", SET(INT), REM), itp.new_cont("set", SET(PID), UPD))
  return model
def fresh_tracker(itp, o):
  """the callee may have changed the whole tracker"""
  itp.setattr(o, "_map", itp.new_cont("map", OUTER, itp.fresh_const("map", sort(OUTER))))
  itp.setattr(o, "_computed_map", itp.new_cont("map", BEST, itp.fresh_const("best", sort(BEST))))

def s_change(itp):
  """modular: add_many, remove_many by their contracts (proved above); merge_priced_topics by its body"""
  setup(itp)
  o = tracker(itp); v0 = view(itp, o)
  itp.assume(v0.inv())
  A, R = itp.fresh_const("add", sort(SET(PID))), itp.fresh_const("remove", sort(SET(PID)))
  itp.models[Q + ".add_many"] = contract_add(itp, o)
  itp.models[Q + ".remove_many"] = contract_remove(itp, o)
  itp.loop_hints.append(merge_hints(itp))
  r = itp.call(itp.getattr(o, "change_many"), [itp.new_cont("set", SET(PID), A), itp.new_cont("set", SET(PID), R)])
  v1 = view(itp, o)
  upd, rem = M.unpack(itp, r, 2, False)
  UPD, REM = as_set(itp, upd, PID), as_set(itp, rem, INT)
  i, c = itp.fresh_const("i", z3.IntSort()), itp.fresh_const("c", z3.IntSort())
  itp.check("change_many: invariant kept", v1.inv())
  one = lambda b: z3.If(b, 1, 0)
  itp.check("change_many: withdraws exactly the removed routes, then registers exactly the added ones", v1.cnt(i, c) == v0.cnt(i, c) - one(z3.And(sel(R, p(i, c)), v0.cnt(i, c) > 0)) + one(sel(A, p(i, c))))
  itp.check("change_many: every reported update is the current best", z3.Implies(sel(UPD, p(i, c)), z3.And(v1.known(i), v1.best(i) == c)))
  itp.check("change_many: every new or changed best cost is reported", z3.Implies(z3.And(v1.known(i), z3.Or(z3.Not(v0.known(i)), v0.best(i) != v1.best(i))), sel(UPD, p(i, v1.best(i)))))
  itp.check("change_many: every id that became unreachable is reported as removed", z3.Implies(z3.And(v0.known(i), z3.Not(v1.known(i))), sel(REM, i)))
  itp.check("change_many: an id reported as removed is unreachable, or reported again as reachable", z3.Implies(z3.And(sel(REM, i), v1.known(i)), sel(UPD, p(i, v1.best(i)))))

def s_lookup(itp):
  setup(itp)
  o = tracker(itp); v = view(itp, o)
  itp.assume(v.inv())
  i, c = itp.fresh_const("i", z3.IntSort()), itp.fresh_const("c", z3.IntSort())
  g = itp.call(itp.getattr(o, "get"), [Sym(i, INT)])
  g = itp.resolve(g)
  if isinstance(g, float): itp.check("get: infinite exactly for unknown ids", z3.Not(v.known(i)))
  else: itp.check("get: the cheapest registered cost", z3.And(v.known(i), itp.to_term(g, INT) == v.best(i)))
  k = itp.call(itp.getattr(o, "__contains__"), [Sym(i, INT)])
  itp.check("__contains__: known exactly while a route is registered", itp.to_term(k, BOOL) == v.has(i))
  its = itp.call(itp.getattr(o, "items"), [])
  R = as_set(itp, M.build_set(itp, its), PID)
  itp.check("items: exactly the known ids at their best cost", sel(R, p(i, c)) == z3.And(v.known(i), v.best(i) == c))

SCENARIOS = [
  Scn("PricedIdTracker.__init__", s_init, [Q + ".__init__"]),
  Scn("PricedIdTracker.add_many", s_add, [Q + ".add_many"]),
  Scn("PricedIdTracker.remove_many", s_remove, [Q + ".remove_many"]),
  Scn("merge_priced_topics", s_merge, ["streamtasks.net.helpers:merge_priced_topics"]),
  Scn("PricedIdTracker.change_many", s_change, [Q + ".change_many"]),
  Scn("PricedIdTracker lookups", s_lookup, [Q + ".get", Q + ".items", Q + ".__contains__"]),
]
