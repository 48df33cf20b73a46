"""P07: message codec and RawData. Decoded payloads are mutable objects ("nodes") with a content, encoded ones opaque bytes; msgpack by its contract
unpack(pack(v)) = v, every unpacking a new object. Messages are encoded structurally: what is packed is snapshot, what is unpacked is a fresh copy of it."""
from contracts.net import *
from contracts.p02 import any_message

SER = "streamtasks.net.serialization"
RD = SER + ":RawData"
NODE, RAW, VAL = ANY("node"), ANY("raw"), ANY("value")
KINDS = ["TopicDataMessage", "TopicControlMessage", "AddressedMessage", "InTopicsChangedMessage", "OutTopicsChangedMessage", "AddressesChangedMessage"]
PACK = z3.Function("pack", sort(VAL), sort(RAW))
UNPACK = z3.Function("unpack", sort(RAW), sort(VAL))
STRKEYS = z3.Function("only_text_keys", sort(VAL), z3.BoolSort())
VIEW = z3.Function("is_view", sort(RAW), z3.BoolSort())
BYT = z3.Function("is_bytes", sort(RAW), z3.BoolSort())

def setup07(itp):
  itp.rec_types[MSG + ":PricedId"] = PID
  g = itp.st.ghost
  g["C"] = itp.fresh_const("content", z3.ArraySort(sort(NODE), sort(VAL)))
  g["nodes"] = ()
  g["packed"] = ()
  v = z3.Const("v!pk", sort(VAL))
  itp.assume(M.mk_forall([v], UNPACK(PACK(v)) == v, [[PACK(v)]]))
  name = lambda c: getattr(c, "name", None) or getattr(c, "path", "")
  def is_raw(itp, s, a, k):
    n = name(a[0])
    if n == "memoryview": return Sym(VIEW(s.t), BOOL)
    if n == "bytes": return Sym(BYT(s.t), BOOL)
    return Sym(z3.Not(z3.Or(VIEW(s.t), BYT(s.t))), BOOL) if n == "bytearray" else False
  itp.any_methods[("raw", "__isinstance__")] = is_raw
  itp.any_methods[("raw", "__bytes__")] = lambda itp, s, a, k: s
  itp.any_methods[("node", "__isinstance__")] = lambda itp, s, a, k: name(a[0]) not in ("memoryview", "bytes", "bytearray")
  itp.any_methods[("raw", "tobytes")] = lambda itp, s, a, k: s
  def packb(itp, a, k):
    x = itp.resolve(a[0])
    if set(k) - {"strict_types"}: raise Unsupported("packb options")
    if isinstance(x, Sym) and x.ty is NODE: return Sym(PACK(z3.Select(itp.st.ghost["C"], x.t)), RAW)
    r = itp.fresh("bytes", RAW)
    itp.st.ghost["packed"] = itp.st.ghost["packed"] + ((r.t, snapshot(itp, x)),)
    return r
  def unpackb(itp, a, k):
    x = itp.resolve(a[0])
    for t, s in itp.st.ghost["packed"]:
      if t.eq(x.t): return M.x_deepcopy(itp, [s], {})
    if set(k) - {"strict_map_key"}: raise Unsupported("unpackb options")
    if k.get("strict_map_key", True) is not False and not itp.decide(STRKEYS(UNPACK(x.t))): itp.raise_py(ValueError)
    return new_node(itp, UNPACK(x.t))
  itp.ext_models["msgpack.packb"] = packb
  itp.ext_models["msgpack.unpackb"] = unpackb

def snapshot(itp, v):
  """what msgpack can encode, copied; anything else is a TypeError"""
  v = itp.resolve(v)
  if isinstance(v, LocRef):
    c = itp.content(v)
    if M.coll_kind(c) == "set": itp.raise_py(TypeError)
    if isinstance(c, PyListC): return itp.new_list([snapshot(itp, x) for x in c.items])
    if isinstance(c, PyDictC): return itp.new_dict({k: snapshot(itp, x) for k, x in c.d.items()})
    return M.x_deepcopy(itp, [v], {})
  if isinstance(v, ObjRef): itp.raise_py(TypeError)
  if isinstance(v, tuple): return itp.new_list([snapshot(itp, x) for x in v])
  return v
def new_node(itp, value):
  n = itp.fresh("node", NODE)
  for m in itp.st.ghost["nodes"]: itp.assume(n.t != m)
  itp.st.ghost["nodes"] = itp.st.ghost["nodes"] + (n.t,)
  modify(itp, n, value)
  return n
def modify(itp, n, value): itp.st.ghost["C"] = z3.Store(itp.st.ghost["C"], n.t, value)
def content(itp, n): return z3.Select(itp.st.ghost["C"], n.t)
def value(itp, name): return itp.fresh_const(name, sort(VAL))
def is_node(v): return isinstance(v, Sym) and v.ty is NODE
def is_raw(v): return isinstance(v, Sym) and v.ty is RAW

def payload(itp, name="v"):
  """a payload in any of its three states, holding the value v"""
  v = value(itp, name)
  k = itp.choose(3)
  d = new_node(itp, v) if k != 1 else None
  r = itp.fresh("raw", RAW) if k != 0 else None
  if r is not None: itp.assume(UNPACK(r.t) == v)
  return itp.new_obj(itp.cls_by_qual(RD), {"_data": d, "_raw": r}), v
def call(itp, o, m, *a): return attempt(itp, lambda: itp.call(itp.getattr(o, m), list(a)))
def holds(itp, what, o, v):
  """both forms of o describe the value v"""
  st, r = call(itp, o, "serialize")
  itp.check(f"{what}: its bytes describe the value", z3.BoolVal(False) if st != "ok" or not is_raw(r) else UNPACK(r.t) == v)
  st, n = attempt(itp, lambda: itp.getattr(o, "data"))
  itp.check(f"{what}: its decoded content is the value", z3.BoolVal(False) if st != "ok" or not is_node(n) else content(itp, n) == v)
  st, r2 = call(itp, o, "serialize")
  itp.check(f"{what}: reading one form leaves the other as it was", z3.BoolVal(False) if st != "ok" or not is_raw(r2) else UNPACK(r2.t) == v)
  return n

def s_init(itp):
  setup07(itp)
  v = value(itp, "v")
  if itp.choose(2):
    x = itp.fresh("raw", RAW); itp.assume(UNPACK(x.t) == v)
    what = "made from bytes"
  else:
    x = new_node(itp, v)
    what = "made from a value"
  o = itp.call(itp.cls_by_qual(RD), [x])
  holds(itp, what, o, v)

def s_read(itp):
  setup07(itp)
  o, v = payload(itp)
  n = holds(itp, "any payload", o, v)
  st, m = attempt(itp, lambda: itp.getattr(o, "data"))
  itp.check("reading the content again gives the same object", z3.BoolVal(False) if st != "ok" or not is_node(m) else m.t == n.t)
  st, m = call(itp, o, "deserialize")
  itp.check("deserialize() gives the content", z3.BoolVal(False) if st != "ok" or not is_node(m) else m.t == n.t)

def s_update_after(itp):
  setup07(itp)
  o, v = payload(itp)
  w = value(itp, "w")
  n = itp.getattr(o, "data")
  if itp.choose(2): call(itp, o, "serialize")
  modify(itp, n, w)
  st, _ = call(itp, o, "update")
  itp.check("update: never fails", st == "ok")
  holds(itp, "modified, then marked updated", o, w)
def s_update_before(itp):
  setup07(itp)
  o, v = payload(itp)
  w = value(itp, "w")
  st, _ = call(itp, o, "update")
  itp.check("update: never fails", st == "ok")
  n = itp.getattr(o, "data")
  itp.check("update: the content stays", content(itp, n) == v)
  modify(itp, n, w)
  holds(itp, "marked updated, then modified", o, w)

def s_copy(itp):
  setup07(itp)
  o, v = payload(itp)
  st, c = call(itp, o, "copy")
  ok = st == "ok" and isinstance(itp.deref(c), ObjRef) and itp.deref(c).addr != o.addr
  itp.check("copy: a new payload", ok)
  if not ok: return
  first, second, what = (o, c, "the original") if itp.choose(2) else (c, o, "the copy")
  w = value(itp, "w")
  if itp.choose(2): holds(itp, "copy", c, v)
  if itp.choose(2): holds(itp, "copied from", o, v)
  n = itp.getattr(first, "data")
  modify(itp, n, w)
  call(itp, first, "update")
  holds(itp, f"{what} changed: the other one", second, v)
  holds(itp, f"{what} changed: itself", first, w)

def msg_payload(itp, kind):
  if kind not in ("TopicDataMessage", "AddressedMessage"): return any_message(itp, kind), None
  o, v = payload(itp)
  f = {n: itp.fresh(n, INT) for n in ("topic", "address", "port")}
  f = {"topic": f["topic"]} if kind == "TopicDataMessage" else {"address": f["address"], "port": f["port"]}
  return itp.new_obj(mcls(itp, kind), {**f, "data": o}), v
def same(itp, what, msg, got, v):
  ok = isinstance(got, ObjRef) and itp.st.cells[got.addr].cls is itp.st.cells[msg.addr].cls
  itp.check(f"{what}: the same kind of message", ok)
  if not ok: return
  for f in itp.st.cells[msg.addr].fields:
    if f not in itp.st.cells[got.addr].fields: itp.check(f"{what}: {f} is kept", False); continue
    a, b = itp.getattr(msg, f), itp.getattr(got, f)
    if f == "data":
      ok = isinstance(itp.deref(b), ObjRef) and itp.st.cells[itp.deref(b).addr].cls is itp.cls_by_qual(RD)
      itp.check(f"{what}: the payload is a payload", ok)
      if ok: holds(itp, f"{what}: payload", itp.deref(b), v); holds(itp, f"{what}: payload of the original", itp.deref(a), v)
    elif f in ("add", "remove"):
      e = itp.content(itp.deref(a)).ty.args[0]
      x = itp.fresh_const("x", sort(e))
      A, B = term_set(itp, a, e), term_set(itp, b, e)
      itp.check(f"{what}: {f} is the same set", sel(A, x) == sel(B, x))
    else: itp.check(f"{what}: {f} is equal", itp.bz(itp.eq(a, b)))
def s_codec(kind):
  def s(itp):
    setup07(itp)
    msg, v = msg_payload(itp, kind)
    fn = itp.loader.module(SER)
    st, raw = attempt(itp, lambda: itp.call(itp.module_attr(fn, "serialize_message"), [msg]))
    itp.check(f"{kind}: is encoded", st == "ok" and is_raw(raw))
    if st != "ok" or not is_raw(raw): return
    st, got = attempt(itp, lambda: itp.call(itp.module_attr(fn, "deserialize_message"), [raw]))
    itp.check(f"{kind}: is decoded", st == "ok")
    if st == "ok": same(itp, kind, msg, itp.deref(got), v)
  return s

R = lambda *ms: [RD + "." + m for m in ms]
SCENARIOS = [Scn("RawData()", s_init, R("__init__", "serialize", "deserialize", "data")), Scn("RawData reading", s_read, R("serialize", "deserialize", "data")),
  Scn("RawData update after a change", s_update_after, R("update")), Scn("RawData update before a change", s_update_before, R("update")), Scn("RawData.copy", s_copy, R("copy"))] + \
  [Scn(f"codec {k}", s_codec(k), [SER + ":serialize_message", SER + ":deserialize_message", f"{MSG}:{k}.as_dict", f"{MSG}:{k}.from_dict"]) for k in KINDS]
ASSUMPTIONS = ["msgpack by contract: unpackb(packb(v)) = v for the values a payload may hold (text, bytes, 64-bit integers, floats, booleans, lists, dictionaries; tuples come back as lists), unpacking makes a new object",
  "a payload is not nil (RawData rejects None) and its bytes are not changed in place by whoever handed them in", "ids and prices are 64-bit integers"]
