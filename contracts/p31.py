"""P31: timestamps of messages. Payloads as in P07 (decoded nodes with a content, encoded bytes, msgpack by its contract); a content is a mapping with or
without a "timestamp" entry of any kind, or something else."""
from contracts.p07 import *
import math

U = "streamtasks.message.utils"
KINDS31 = ["whole", "fraction", "infinite", "-infinite", "nan", "text", "nothing", "bytes", "list", "absent", "not a mapping", "a date"]
REST = z3.Function("other_entries", sort(VAL), z3.IntSort())

def setup31(itp, kind):
  setup07(itp)
  g = itp.st.ghost
  ts = {"whole": lambda: itp.fresh("stored", INT), "fraction": lambda: itp.fresh("stored", REAL), "infinite": lambda: math.inf, "-infinite": lambda: -math.inf,
    "nan": lambda: math.nan, "text": lambda: itp.fresh("stored", STR), "bytes": lambda: itp.fresh("stored", BYTES), "list": lambda: itp.new_list([1])}.get(kind, lambda: None)()
  mapping = kind not in ("not a mapping", "a date")
  def entry(n):
    """(has a timestamp, timestamp) of the content n has now"""
    c = content(itp, n)
    for t, has, x in reversed(itp.st.ghost["table"]):
      if itp.decide(c == t): return has, x
    raise Unsupported("content of a message")
  def put(n, key, x):
    old = content(itp, n); w = value(itp, "changed")
    for t, _, _ in itp.st.ghost["table"]: itp.assume(w != t)
    if key == "timestamp":
      itp.assume(REST(w) == REST(old))
      itp.st.ghost["table"] = itp.st.ghost["table"] + ((w, True, x),)
    else:
      h, y = entry(n)
      itp.st.ghost["table"] = itp.st.ghost["table"] + ((w, h, y),)
    modify(itp, n, w)
  def get(n, key, default=None, must=True):
    if key == "timestamp":
      h, x = entry(n)
      if h: return x
      if must: itp.raise_py(KeyError)
      return default
    raise Unsupported("another entry of a message")
  pyname = lambda c: getattr(c, "name", None) or getattr(c, "path", "")
  am = itp.any_methods
  am[("node", "__isinstance__")] = lambda itp_, s, a, k: mapping and pyname(a[0]) in ("dict", "Mapping", "MutableMapping", "collections.abc.Mapping", "object")
  if mapping:
    am[("node", "__contains__")] = lambda itp_, s, a, k: entry(s)[0] if a[0] == "timestamp" else itp.fresh("has", BOOL)
    am[("node", "__getitem__")] = lambda itp_, s, a, k: get(s, a[0])
    am[("node", "get")] = lambda itp_, s, a, k: get(s, a[0], a[1] if len(a) > 1 else None, False)
    am[("node", "__setitem__")] = lambda itp_, s, a, k: put(s, a[0], a[1])
    def update(itp_, s, a, k):
      d = itp.deref(a[0]) if a else None
      for key, x in {**(itp.content(d).d if d is not None else {}), **k}.items(): put(s, key, x)
    am[("node", "update")] = update
  else:
    for m in ("__contains__", "__getitem__", "__setitem__"): am[("node", m)] = lambda itp_, s, a, k: itp.raise_py(TypeError)
  def attr(itp_, s):
    if kind == "a date": return itp.fresh("method", ANY("method"))
    itp.raise_py(AttributeError)
  itp.attr_models[("node", "timestamp")] = attr
  am[("method", "__isinstance__")] = lambda itp_, s, a, k: False
  am[("method", "__call__")] = lambda itp_, s, a, k: itp.fresh("seconds", REAL)
  v = value(itp, "v")
  g["table"] = ((v, mapping and kind != "absent", ts),)
  k = itp.choose(3)
  d = new_node(itp, v) if k != 1 else None
  r = itp.fresh("raw", RAW) if k != 0 else None
  if r is not None: itp.assume(UNPACK(r.t) == v)
  return itp.new_obj(itp.cls_by_qual(RD), {"_data": d, "_raw": r}), v, ts, entry

def fn(itp, name): return itp.module_attr(itp.loader.module(U), name)
def read(itp, o): return attempt(itp, lambda: itp.call(fn(itp, "get_timestamp_from_message"), [o]))
def whole(x): return x.t if x.ty is INT else z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t))
def is_int(itp, r): return isinstance(r, int) or isinstance(r, Sym) and r.ty is INT

def s_read31(kind):
  def s(itp):
    o, v, ts, _ = setup31(itp, kind)
    st, r = read(itp, o)
    if kind in ("whole", "fraction"):
      itp.check("the timestamp can be read", st == "ok")
      if st == "ok":
        r = itp.resolve(r)
        itp.check("it is the whole number stored", is_int(itp, r) and itp.to_term(r, INT) == whole(ts))
    else: itp.check("anything else is refused with ValueError", st != "ok" and exc_is(itp, r, ValueError))
    holds(itp, "reading", o, v)
  return s
def s_write31(kind):
  def s(itp):
    o, v, ts, entry = setup31(itp, kind)
    has = kind not in ("absent", "not a mapping", "a date")
    t = itp.fresh("new", INT)
    seen = itp.choose(2)
    if seen: itp.getattr(o, "data"); itp.call(itp.getattr(o, "serialize"), [])
    st, r = attempt(itp, lambda: itp.call(fn(itp, "set_timestamp_on_message"), [o, t]))
    if not has:
      itp.check("a message without a timestamp is refused with ValueError", st != "ok" and exc_is(itp, r, ValueError))
      holds(itp, "refused", o, v)
      return
    itp.check("a timestamp can be rewritten", st == "ok")
    if st != "ok": return
    st, n = attempt(itp, lambda: itp.getattr(o, "data"))
    itp.check("the content can be read", st == "ok" and is_node(n))
    if not (st == "ok" and is_node(n)): return
    h, x = entry(n); x = itp.resolve(x)
    itp.check("it has the new timestamp", z3.BoolVal(False) if not h or not is_int(itp, x) else itp.to_term(x, INT) == t.t)
    w = content(itp, n)
    itp.check("everything else is as it was", REST(w) == REST(v))
    holds(itp, "rewritten", o, w)
    st, r = read(itp, o)
    itp.check("later readers see it", z3.BoolVal(False) if st != "ok" or not is_int(itp, itp.resolve(r)) else itp.to_term(r, INT) == t.t)
    c = itp.call(itp.getattr(o, "copy"), [])
    st, r = read(itp, c)
    itp.check("copies carry it", z3.BoolVal(False) if st != "ok" or not is_int(itp, itp.resolve(r)) else itp.to_term(r, INT) == t.t)
  return s
G, S_ = U + ":get_timestamp_from_message", U + ":set_timestamp_on_message"
RDF = [RD + "." + m for m in ("data", "serialize", "deserialize", "update", "copy", "__init__")]
SCENARIOS = [Scn(f"reading: {k}", s_read31(k), [G] + RDF) for k in KINDS31] + [Scn(f"writing: {k}", s_write31(k), [S_, G] + RDF) for k in KINDS31]
ASSUMPTIONS = ["msgpack.unpackb(msgpack.packb(v)) is v for what messages hold, a new object every time (P07)", "floats as mathematical reals, infinities and NaN as themselves", "a message is well-formed msgpack"]
