"""stores (PydanticDB) and web routes for contracts"""
from contracts.net import *
from contracts import serve
from contracts.serve import FS, SS, FR, VE
DB = "streamtasks.pydanticdb:PydanticDB"
AS = "streamtasks.asgiserver"

class Store:
  """a PydanticDB by its contract (P22): `entries` hands out a copy, `update` replaces all; ghost: the list, and what is on disk"""
  def __init__(self, itp, name, cls, rec, key):
    self.itp, self.name, self.rec, self.key, self.L = itp, name, rec, key, LIST(rec)
    itp.rec_types[cls] = rec
    t = itp.fresh_const(name, sort(self.L)); itp.assume(l_len(self.L, t) >= 0)
    itp.assume(self.unique(t))
    itp.st.ghost["store:" + name] = t
    itp.st.ghost["disk:" + name] = t
    tag = "db_" + name
    self.v = itp.fresh(name + "_db", ANY(tag))
    itp.attr_models[(tag, "entries")] = lambda itp_, s: itp.new_cont("list", self.L, itp.st.ghost["store:" + name])
    def update(itp_, s, a, k):
      l = M.build_list(itp, a[0] if a else k["entries"])
      itp.st.ghost["store:" + name] = itp.to_term(l, self.L)
      itp.st.ghost["updates:" + name] = itp.st.ghost.get("updates:" + name, 0) + 1
    def save(itp_, s, a, k): itp.st.ghost["disk:" + name] = itp.st.ghost["store:" + name]
    itp.any_methods[(tag, "update")], itp.any_methods[(tag, "save")] = update, save
    # other requests may change the store wherever this one waits before it changes or answers anything
    prev = itp.yield_hook
    def others(itp_, why):
      if prev is not None: prev(itp_, why)
      if itp.st.ghost.get("updates:" + name) or itp.st.ghost.get("answers") or itp.st.ghost.get("web"): return
      x = itp.fresh_const(name + "_then", sort(self.L)); itp.assume(z3.And(l_len(self.L, x) >= 0, self.unique(x)))
      itp.st.ghost["store:" + name] = itp.st.ghost["disk:" + name] = itp.st.ghost["start:" + name] = x
    itp.yield_hook = others
    itp.st.ghost["start:" + name] = t
  @property
  def t0(self): return self.itp.st.ghost["start:" + self.name]
  @property
  def t(self): return self.itp.st.ghost["store:" + self.name]
  def k(self, e): return r_get(self.rec, self.key, e)
  def at(self, t, i): return sel(l_arr(self.L, t), i)
  def n(self, t): return l_len(self.L, t)
  def unique(self, t):
    i, j = z3.Int("i!un"), z3.Int("j!un")
    return M.mk_forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.n(t)), self.k(self.at(t, i)) != self.k(self.at(t, j))), [[self.at(t, i), self.at(t, j)]])
  def has(self, t, e):
    i = z3.Int("i!has")
    return z3.Exists([i], z3.And(0 <= i, i < self.n(t), self.at(t, i) == e))
  def saved(self): return self.itp.st.ghost["disk:" + self.name] is self.t or self.itp.st.ghost["disk:" + self.name] == self.t

  # obligations
  def check_unchanged(self, label): self.itp.check(label, self.t == self.t0)
  def check_unique(self, label):
    itp, t = self.itp, self.t
    i, j = itp.fresh_const("i", z3.IntSort()), itp.fresh_const("j", z3.IntSort())
    itp.check(label, z3.Implies(z3.And(0 <= i, i < j, j < self.n(t)), self.k(self.at(t, i)) != self.k(self.at(t, j))))
  def check_replaced(self, label, key, entry=None):
    """exactly the entry of that key is replaced by `entry` (or removed)"""
    itp, t, t0 = self.itp, self.t, self.t0
    i = itp.fresh_const("i", z3.IntSort()); x = self.at(t, i)
    itp.check(label + ": nothing else appears", z3.Implies(z3.And(0 <= i, i < self.n(t)), z3.Or(z3.And(self.k(x) != key, self.has(t0, x)), x == entry if entry is not None else z3.BoolVal(False))))
    j = itp.fresh_const("j", z3.IntSort()); y = self.at(t0, j)
    itp.check(label + ": all others stay as they are", z3.Implies(z3.And(0 <= j, j < self.n(t0), self.k(y) != key), self.has(t, y)))
    if entry is not None: itp.check(label + ": the new entry is there", self.has(t, entry))
    self.check_unique(label + ": there is at most one entry per key")

def web(itp, run):
  """the web routes a function registers: {(method, pattern): handler}; contexts are opaque"""
  got = {}
  class Stop(BaseException): pass
  def ident(itp_, a, k): return a[0]
  for n in ("http_context_handler", "websocket_context_handler", "transport_context_handler"): itp.models[AS + ":" + n] = ident
  for n in ("ASGIServer", "ASGIRouter"): itp.models[AS + ":" + n] = lambda itp_, a, k, n=n: itp.fresh(n, ANY(n))
  for n in ("ASGIServer", "ASGIRouter"):
    itp.any_methods[(n, "add_handler")] = lambda itp_, s, a, k: None
    itp.any_methods[(n, "handler")] = lambda itp_, s, a, k: a[0]
  for m in ("get", "put", "post", "delete", "websocket_route", "transport_route"):
    def reg(itp_, s, a, k, m=m):
      pat = a[0] if isinstance(a[0], str) else itp.key(a[0])
      def deco(i2, a2, k2): got[(m, pat)] = a2[0]; return a2[0]
      return NativeV(deco, m)
    itp.any_methods[("ASGIRouter", m)] = reg
  itp.models["streamtasks.asgi:ASGIAppRunner"] = lambda itp_, a, k: itp.fresh("runner", ANY("runner"))
  def go(itp_, s, a, k):
    def th(): raise Stop()
    return CoroV(th)
  itp.any_methods[("runner", "run")] = go
  try: itp.await_(run())
  except Stop: pass
  return got

def context(itp, params=None):
  """an arbitrary web request; answers are recorded in ghost 'web' as (kind, status or None, content)"""
  itp.st.ghost["web"] = ()
  def ans(kind):
    def m(itp_, s, a, k):
      def th():
        st = a[0] if kind == "status" else (a[1] if len(a) > 1 else k.get("status"))
        itp.st.ghost["web"] = itp.st.ghost["web"] + ((kind, st, a[0]),)
        itp.yield_point("respond")
      return CoroV(th)
    return m
  A = itp.any_methods
  A[("ctx", "respond_status")], A[("ctx", "respond_json")], A[("ctx", "respond_json_raw")] = ans("status"), ans("json"), ans("raw")
  def raw(itp_, s, a, k):
    def th():
      itp.yield_point("receive")
      return itp.fresh("json_text", ANY("json_text"))
    return CoroV(th)
  A[("ctx", "receive_json_raw")] = raw
  itp.attr_models[("ctx", "params")] = lambda itp_, s: itp.new_dict(params or {})
  return itp.fresh("ctx", ANY("ctx"))
