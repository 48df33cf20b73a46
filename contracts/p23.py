"""P23: the on-disk message buffer behaves like a list. Payloads and msgpack as in P07, the database (dbm) by its contract: a map from text to bytes."""
from contracts.p07 import *

B = "streamtasks.rawdatabuffer:RawDataBuffer"
KEYS, DB = LIST(STR), MAP(STR, RAW)
K = z3.StringSort()

def setup23(itp):
  setup07(itp)
  g = itp.st.ghost
  pk = itp.ext_models["msgpack.packb"]
  itp.ext_models["msgpack.packb"] = lambda itp_, a, k: itp.raise_py(TypeError, "can not serialize") if itp.st.ghost.get("unserialisable") else pk(itp_, a, k)
  def dbopen(itp_, a, k):
    flag = a[1] if len(a) > 1 else k.get("flag", "r")
    itp.check("the same file is used", itp.bz(itp.eq(a[0], Sym(z3.String("db_file"), STR))))
    if "n" in flag: new = z3.K(K, z3.BoolVal(False))
    elif "c" in flag: new = m_dom(DB, itp.st.ghost["db"])
    else: raise Unsupported("dbm.open mode")
    itp.st.ghost["db"] = mk(DB, new, m_val(DB, itp.st.ghost["db"])); itp.st.ghost["open"] = True
    return itp.fresh("db", ANY("db"))
  itp.ext_models["dbm.open"] = dbopen
  itp.ext_models["tempfile.mktemp"] = lambda itp_, a, k: Sym(z3.String("db_file"), STR)
  def opened(f):
    def w(itp_, s, a, k):
      if not itp.st.ghost["open"]: itp.raise_py(OSError, "database is closed")
      return f(*a)
    return w
  key = lambda x: itp.to_term(x, STR)
  has = lambda x: sel(m_dom(DB, itp.st.ghost["db"]), key(x))
  def get(x, *d):
    if not itp.decide(has(x)):
      if d: return d[0]
      itp.raise_py(KeyError)
    return Sym(sel(m_val(DB, itp.st.ghost["db"]), key(x)), RAW)
  def item(x):
    if not itp.decide(has(x)): itp.raise_py(KeyError)
    return get(x)
  def put(x, v):
    v = itp.resolve(v)
    if not is_raw(v): itp.raise_py(TypeError)
    itp.st.ghost["db"] = map_store(itp.st.ghost["db"], key(x), v.t, DB)
  def rem(x):
    if not itp.decide(has(x)): itp.raise_py(KeyError)
    d = itp.st.ghost["db"]
    itp.st.ghost["db"] = mk(DB, z3.Store(m_dom(DB, d), key(x), False), m_val(DB, d))
  def close(): itp.st.ghost["open"] = False
  A = itp.any_methods
  A[("db", "__getitem__")] = opened(item); A[("db", "__setitem__")] = opened(put); A[("db", "__delitem__")] = opened(rem)
  A[("db", "__contains__")] = opened(lambda x: Sym(has(x), BOOL)); A[("db", "get")] = opened(get); A[("db", "close")] = lambda itp_, s, a, k: close()
  itp.attr_models[("db", "clear")] = lambda itp_, s: itp.raise_py(AttributeError)     # not every dbm has it
def map_store(m, k, v, ty): return mk(ty, z3.Store(m_dom(ty, m), k, True), z3.Store(m_val(ty, m), k, v))

class Buf:
  """a buffer in any state: n messages, the i-th UNPACK(db[key(i)])"""
  def __init__(self, itp):
    self.itp = itp
    setup23(itp)
    t = itp.fresh_const("keys", sort(KEYS)); db = itp.fresh_const("db", sort(DB)); c = itp.fresh_const("counter", z3.IntSort())
    itp.st.ghost["db"], itp.st.ghost["open"] = db, True
    self.o = itp.new_obj(itp.cls_by_qual(B), {"_key_counter": Sym(c, INT), "_db_file": Sym(z3.String("db_file"), STR), "_db": itp.fresh("db", ANY("db")), "_index_map": itp.new_cont("list", KEYS, t)})
    self.n0, self.a0, self.db0 = l_len(KEYS, t), l_arr(KEYS, t), db
    n, a = self.n0, self.a0
    i, j, s = z3.Int("i!b"), z3.Int("j!b"), z3.String("s!b")
    self.idx = itp.fresh_fn("idx", K, z3.IntSort())
    rng = lambda x: z3.And(x >= 0, x < n)
    itp.assume(z3.And(n >= 0, c >= 0))
    itp.assume(M.mk_forall([i], z3.Implies(rng(i), z3.And(sel(m_dom(DB, db), sel(a, i)), self.idx(sel(a, i)) == i, z3.StrToInt(sel(a, i)) < c)), [[sel(a, i)]]))
    itp.assume(M.mk_forall([s], z3.Implies(sel(m_dom(DB, db), s), z3.And(rng(self.idx(s)), sel(a, self.idx(s)) == s)), [[sel(m_dom(DB, db), s)]]))
    self.c0 = c
  def now(self):
    t = self.itp.to_term(self.itp.getattr(self.o, "_index_map"), KEYS)
    return l_len(KEYS, t), l_arr(KEYS, t), self.itp.st.ghost["db"]
  def old(self, i): return UNPACK(sel(m_val(DB, self.db0), sel(self.a0, i)))
  def check(self, what, n, at):
    """it is now the list of n messages, at(i) the i-th; and consistent"""
    itp = self.itp
    n1, a1, db1 = self.now()
    i, j, s = itp.fresh_const("i", z3.IntSort()), itp.fresh_const("j", z3.IntSort()), itp.fresh_const("key", K)
    c = itp.to_term(itp.getattr(self.o, "_key_counter"), INT)
    itp.check(f"{what}: it has as many messages as the list", n1 == n)
    ri = z3.And(i >= 0, i < n1)
    itp.check(f"{what}: every message is stored", z3.Implies(ri, sel(m_dom(DB, db1), sel(a1, i))))
    itp.check(f"{what}: the messages are those of the list, in order", z3.Implies(ri, UNPACK(sel(m_val(DB, db1), sel(a1, i))) == at(i)))
    itp.check(f"{what}: no two messages share their storage", z3.Implies(z3.And(ri, j >= 0, j < n1, i != j), sel(a1, i) != sel(a1, j)))
    itp.check(f"{what}: nothing else is stored", z3.Implies(sel(m_dom(DB, db1), s), z3.Or(*[z3.And(w >= 0, w < n1, sel(a1, w) == s) for w in (self.idx(s), self.idx(s) - 1, n1 - 1)])))
    itp.check(f"{what}: later keys are new", z3.And(c >= 0, z3.Implies(ri, z3.StrToInt(sel(a1, i)) < c)))
    itp.check(f"{what}: its storage is open", itp.st.ghost["open"])
  def same(self, what): self.check(what, self.n0, self.old)
  def call(self, m, *a): return attempt(self.itp, lambda: self.itp.call(self.itp.getattr(self.o, m), list(a)))

def index(itp, b):
  """any index, and where it points (if anywhere)"""
  i = itp.fresh("index", INT)
  ok = itp.decide(z3.And(i.t >= -b.n0, i.t < b.n0))
  return i, ok, z3.If(i.t < 0, i.t + b.n0, i.t)
def is_rd(itp, r): return isinstance(r, ObjRef) and itp.class_of(r) is itp.cls_by_qual(RD)
def gives(itp, what, st, r, v):
  itp.check(f"{what}: gives a message", st == "ok" and is_rd(itp, r))
  if st == "ok" and is_rd(itp, r): holds(itp, what, r, v)
def no_index(itp, what, st, r): itp.check(f"{what}: an index out of range is refused with IndexError", st != "ok" and exc_is(itp, r, IndexError))

def s_init(itp):
  setup23(itp)
  itp.st.ghost["db"], itp.st.ghost["open"] = mk(DB, z3.K(K, z3.BoolVal(False)), m_val(DB, itp.fresh_const("db", sort(DB)))), False
  st, o = attempt(itp, lambda: itp.call(itp.cls_by_qual(B), []))
  itp.check("a new buffer", st == "ok")
  if st != "ok": return
  n = itp.call(TypeV("list"), []) if False else itp.call(itp.getattr(o, "__len__"), [])
  itp.check("is empty", itp.to_term(n, INT) == 0)
  s = itp.fresh_const("key", K)
  itp.check("and stores nothing", z3.And(z3.BoolVal(itp.st.ghost["open"]), z3.Not(sel(m_dom(DB, itp.st.ghost["db"]), s)), itp.to_term(itp.getattr(o, "_key_counter"), INT) >= 0))
def s_len(itp):
  b = Buf(itp)
  st, n = b.call("__len__")
  itp.check("len: the number of messages", z3.BoolVal(False) if st != "ok" else itp.to_term(n, INT) == b.n0)
  b.same("len")
def s_get(itp):
  b = Buf(itp); i, ok, k = index(itp, b)
  st, r = b.call("__getitem__", i)
  if ok: gives(itp, "indexing", st, r, b.old(k))
  else: no_index(itp, "indexing", st, r)
  b.same("indexing")
def removed(b, k): return lambda i: z3.If(i < k, b.old(i), b.old(i + 1))
def s_pop(how):
  def s(itp):
    b = Buf(itp)
    if how == "last": i, ok, k = None, itp.decide(b.n0 > 0), b.n0 - 1; st, r = b.call("pop")
    elif how == "first": i, ok, k = None, itp.decide(b.n0 > 0), z3.IntVal(0); st, r = b.call("popleft")
    else:
      i, ok, k = index(itp, b)
      st, r = b.call("__delitem__" if how == "delete" else "pop", i)
    if not ok: no_index(itp, how, st, r); b.same("refused"); return
    if how == "delete": itp.check("deleting succeeds", st == "ok")
    else: gives(itp, how, st, r, b.old(k))
    b.check(how, b.n0 - 1, removed(b, k))
  return s
def bad(itp):
  itp.st.ghost["unserialisable"] = itp.choose(2) == 1
  return itp.st.ghost["unserialisable"]
def s_append(itp):
  b = Buf(itp)
  d, v = payload(itp); raw = itp.getattr(d, "_raw") is not None
  fails = bad(itp) and not raw
  st, r = b.call("append", d)
  itp.st.ghost["unserialisable"] = False
  if fails: itp.check("a message which has no bytes is refused", st != "ok"); b.same("refused"); return
  itp.check("append succeeds", st == "ok")
  b.check("append", b.n0 + 1, lambda i: z3.If(i < b.n0, b.old(i), v))
  holds(itp, "the message appended", d, v)
def s_set(itp):
  b = Buf(itp); i, ok, k = index(itp, b)
  d, v = payload(itp); raw = itp.getattr(d, "_raw") is not None
  fails = bad(itp) and not raw
  st, r = b.call("__setitem__", i, d)
  itp.st.ghost["unserialisable"] = False
  if not ok or fails:
    itp.check("refused", st != "ok" and (fails or exc_is(itp, r, IndexError)))
    b.same("refused"); return
  itp.check("replacing succeeds", st == "ok")
  b.check("replacing", b.n0, lambda i: z3.If(i == k, v, b.old(i)))
def s_clear(itp):
  b = Buf(itp)
  st, r = b.call("clear")
  itp.check("clear succeeds", st == "ok")
  b.check("clear", z3.IntVal(0), b.old)
def s_iter(itp):
  b = Buf(itp)
  OUT = ANY("out"); f = itp.fresh_fn("message", sort(RAW), sort(OUT))
  itp.models[RD] = lambda itp_, a, k: Sym(f(itp.to_term(a[0], RAW)), OUT)
  st, l = attempt(itp, lambda: M.build_list(itp, itp.call(itp.getattr(b.o, "__iter__"), [])))
  itp.check("iterating succeeds", st == "ok")
  if st != "ok": return
  c = itp.content(l)
  if isinstance(c, PyListC): itp.check("iterating gives every message", b.n0 == len(c.items)); return
  t = itp.to_term(l, LIST(OUT)); i = itp.fresh_const("i", z3.IntSort())
  itp.check("iterating gives as many messages", l_len(LIST(OUT), t) == b.n0)
  itp.check("iterating gives them in order", z3.Implies(z3.And(i >= 0, i < b.n0), sel(l_arr(LIST(OUT), t), i) == f(sel(m_val(DB, b.db0), sel(b.a0, i)))))
  b.same("iterating")
Q = lambda *n: [B + "." + x for x in n]
SCENARIOS = [Scn("a new buffer", s_init, Q("__init__", "__len__")), Scn("len", s_len, Q("__len__")), Scn("indexing", s_get, Q("__getitem__")), Scn("pop", s_pop("last"), Q("pop")), Scn("popleft", s_pop("first"), Q("popleft", "pop")),
  Scn("pop at an index", s_pop("at"), Q("pop")), Scn("deleting", s_pop("delete"), Q("__delitem__")), Scn("append", s_append, Q("append")), Scn("replacing", s_set, Q("__setitem__")), Scn("clear", s_clear, Q("clear")), Scn("iterating", s_iter, Q("__iter__"))]
ASSUMPTIONS = ["a dbm database is a map from text to bytes while it is open, and not every one can be cleared", "tempfile.mktemp names a file nobody else uses", "msgpack.unpackb(msgpack.packb(v)) is v for what messages hold (P07)", "the disk does not fail"]
