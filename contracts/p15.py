"""P15: every incoming connection must pass version and authentication checks."""
import asyncio
from contracts.net import *
from pydv import interp as I

CON = "streamtasks.connection"
RSC, RC, RWS, RCL = (CON + ":" + n for n in ("RawStreamConnection", "RawConnection", "RawWebsocketConnection", "RawConnectionLink"))
V = UNION(NONE, BOOL, INT, STR)
D = MAP(STR, V)
FAIL = [EOFError, ConnectionError, OSError, asyncio.CancelledError]

def wire(itp, cls):
  """a connection whose peer sends anything; sent dictionaries are recorded"""
  g = itp.st.ghost
  g["sent"], g["closed"], g["got"], g["broken"] = (), False, None, False
  s = type("S", (), {})()
  s.version = itp.fresh("version", STR)
  itp.models[CON + ":_get_version_specifier"] = lambda itp_, a, k: s.version
  def send(itp_, a, k):
    if itp.choose(2): itp.st.ghost["broken"] = True; itp.raise_py(FAIL[itp.choose(len(FAIL))], "broken")
    itp.st.ghost["sent"] = itp.st.ghost["sent"] + (a[1],)
  def recv(itp_, a, k):
    if itp.choose(2): itp.st.ghost["broken"] = True; itp.raise_py(FAIL[itp.choose(len(FAIL))], "broken")
    return itp.fresh("data", ANY("packed"))
  for c in (cls, RC): itp.models[c + ".send"], itp.models[c + ".recv"] = send, recv
  def close(itp_, a, k): itp.st.ghost["closed"] = True
  itp.models[cls + ".close"] = close
  def unpack(itp_, a, k):
    c = itp.choose(3)
    if c == 0: itp.st.ghost["broken"] = True; itp.raise_py(ValueError, "malformed")
    if c == 1: itp.st.ghost["broken"] = True; return [3, "text", None, (1, 2)][itp.choose(4)]
    m = itp.fresh_const("peer", sort(D))
    itp.st.ghost["got"] = m
    return itp.new_cont("map", D, m)
  itp.ext_models["msgpack.unpackb"] = unpack
  itp.ext_models["msgpack.packb"] = lambda itp_, a, k: a[0]
  f = {"_reader": itp.fresh("reader", ANY("reader")), "_writer": itp.fresh("writer", ANY("writer")), "socket": itp.fresh("socket", ANY("socket")), "_send_lock": itp.fresh("l1", ANY("lock")), "_recv_lock": itp.fresh("l2", ANY("lock"))}
  s.o = itp.new_obj(itp.cls_by_qual(cls), f)
  return s
def own(itp):
  """the own handshake data: a secret and any other entry, each present or not"""
  d = {}
  if itp.choose(2): d["auth"] = itp.fresh("secret", V)
  if itp.choose(2): d["username"] = itp.fresh("other", V)
  o = itp.new_dict({})
  for k, v in d.items(): M.setitem(itp, o, k, v)
  return d, o
def entry(itp, v):
  """entries of a sent dictionary, or None"""
  v = itp.deref(v)
  if isinstance(v, LocRef) and isinstance(itp.content(v), PyDictC): return dict(itp.content(v).d)
  return None
def given(m, k): return z3.If(sel(m_dom(D, m), z3.StringVal(k)), sel(m_val(D, m), z3.StringVal(k)), none_v())
def none_v(): return sort(V).constructor(0)()

def s_server(cls):
  n = cls.split(":")[1] + " init_server"
  def s(itp):
    w = wire(itp, cls)
    d, o = own(itp)
    before = dict(itp.content(itp.deref(o)).d)
    st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(w.o, "init_server"), [o])))
    g = itp.st.ghost
    itp.check(f"{n}: the server keeps its secret for the next connection", list(entry(itp, o)) == list(before) and all(itp.bz(itp.eq(entry(itp, o)[k], before[k])).eq(z3.BoolVal(True)) or entry(itp, o)[k] is before[k] for k in before))
    secret = itp.to_term(d.get("auth"), V)
    m = g["got"]
    for x in g["sent"]:
      e = entry(itp, x)
      itp.check(f"{n}: answers a dictionary", e is not None)
      if e is None: continue
      itp.check(f"{n}: the secret is never sent", "auth" not in e and all(k in ("accepted", "version") or (k in d and e[k] is d[k]) for k in e))
      itp.check(f"{n}: answers its own version", "version" in e and itp.bz(itp.eq(e["version"], w.version)))
      itp.check(f"{n}: tells whether it accepts", "accepted" in e and itp.bz(itp.eq(e["accepted"], st == "ok")) if not g["broken"] else True)
    if st == "ok":
      itp.check(f"{n}: never accepts what is no handshake", m is not None and not g["broken"])
      if m is None: return
      itp.check(f"{n}: accepts only its own version", given(m, "version") == itp.to_term(w.version, V))
      itp.check(f"{n}: accepts only its own secret", z3.Implies(secret != none_v(), given(m, "auth") == secret))
      itp.check(f"{n}: tells the client", len(g["sent"]) == 1)
      itp.check(f"{n}: an accepted connection stays open", not g["closed"])
    else:
      itp.check(f"{n}: a rejected or malformed handshake closes the connection", g["closed"])
      if m is not None and not g["broken"]: itp.check(f"{n}: rejects only a wrong version or secret", z3.Not(z3.And(given(m, "version") == itp.to_term(w.version, V), given(m, "auth") == secret)))
  return s

def s_client(cls):
  n = cls.split(":")[1] + " init_client"
  def s(itp):
    w = wire(itp, cls)
    d, o = own(itp)
    st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(w.o, "init_client"), [o])))
    g = itp.st.ghost; m = g["got"]
    for x in g["sent"]:
      e = entry(itp, x)
      itp.check(f"{n}: presents its version and its own data", e is not None and "version" in e and itp.bz(itp.conj([itp.eq(e["version"], w.version), *[itp.eq(e.get(k), v) for k, v in d.items()]])))
    if st == "ok":
      itp.check(f"{n}: presents itself once", len(g["sent"]) == 1)
      itp.check(f"{n}: takes nothing else for an acceptance", m is not None and not g["broken"])
      if m is None: return
      itp.check(f"{n}: connects only to its own version", given(m, "version") == itp.to_term(w.version, V))
      a = itp.value_of(given(m, "accepted"), V)
      itp.check(f"{n}: connects only when accepted", itp.bz(itp.eq(a, True)))
      itp.check(f"{n}: an accepted connection stays open", not g["closed"])
    else: itp.check(f"{n}: a rejected or malformed handshake closes the connection", g["closed"])
  return s

def s_connection(base, cls):
  n = base.split(":")[1]
  def s(itp):
    g = itp.st.ghost
    g["log"] = ()
    log = lambda *x: itp.st.ghost.__setitem__("log", itp.st.ghost["log"] + (x,))
    hs = itp.new_cont("map", D, itp.fresh_const("data", sort(D)))
    cost = itp.fresh("cost", INT)
    itp.assume(cost.t != 0)
    itp.ext_models["asyncio.Event"] = lambda itp_, a, k: itp.fresh("event", ANY("event"))
    itp.ext_models["asyncio.Lock"] = lambda itp_, a, k: itp.fresh("lock", ANY("lock"))
    itp.ext_models["logging.warning"] = lambda itp_, a, k: None
    itp.any_methods[("event", "wait")] = lambda itp_, o, a, k: CoroV(lambda: log("wait"))
    itp.any_methods[("event", "set")] = lambda itp_, o, a, k: None
    def init(itp_, a, k):
      log("init", a[0], a[1])
      c = itp.choose(3)
      if c: log("rejected"); itp.raise_py([None, ConnectionError, ValueError][c], "rejected")
    itp.models[RC + ".init_server"] = init
    itp.models[CON + ":ServerBase.on_connected"] = lambda itp_, a, k: log("connected")
    def add(itp_, o, a, k):
      def th():
        log("add", a[0])
        if itp.choose(2): itp.raise_py(ConnectionError, "closed")
      return CoroV(th)
    itp.any_methods[("switch", "add_link")] = add
    x, y = itp.fresh("reader", ANY("reader")), itp.fresh("writer", ANY("writer"))
    sock = itp.fresh("socket", ANY("socket"))
    o = itp.new_obj(itp.cls_by_qual(base), {"cost": cost, "handshake_data": hs, "switch": itp.fresh("switch", ANY("switch")), "_connection_count": 0})
    itp.getattr(o, "switch")
    st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "on_connection"), [x, y] if cls == RSC else [sock])))
    L = itp.st.ghost["log"]; kinds = [e[0] for e in L]
    itp.check(f"{n}: a failing connection never stops the server", st == "ok")
    itp.check(f"{n}: every connection is checked first", kinds[:1] == ["init"] and kinds.count("init") == 1)
    if kinds[:1] != ["init"]: return
    conn = itp.deref(L[0][1])
    itp.check(f"{n}: checked with the server's own data", itp.deref(L[0][2]) == hs)
    itp.check(f"{n}: the checked connection is the incoming one", isinstance(conn, ObjRef) and itp.bz(itp.conj([itp.eq(itp.getattr(conn, "_reader"), x), itp.eq(itp.getattr(conn, "_writer"), y)]) if cls == RSC else itp.eq(itp.getattr(conn, "socket"), sock)))
    if "rejected" in kinds: itp.check(f"{n}: a rejected connection adds no link", "add" not in kinds and "connected" not in kinds); return
    itp.check(f"{n}: an accepted connection adds exactly one link", kinds.count("add") == 1)
    if kinds.count("add") != 1: return
    l = itp.deref(next(e[1] for e in L if e[0] == "add"))
    ok = isinstance(l, ObjRef) and itp.class_of(l).name == "RawConnectionLink"
    itp.check(f"{n}: the link uses the checked connection", ok and itp.deref(itp.getattr(l, "_connection")) == conn)
    if ok: itp.check(f"{n}: the link has the configured cost", itp.bz(itp.eq(itp.getattr(l, "_cost"), cost)))
  return s

SCENARIOS = [f for c in (RSC, RWS) for f in (Scn(f"{c.split(':')[1]}.init_server", s_server(c), [RC + ".init_server"]), Scn(f"{c.split(':')[1]}.init_client", s_client(c), [RC + ".init_client"]))] + \
  [Scn(f"{b}.on_connection", s_connection(CON + ":" + b, c), [CON + ":" + b + ".on_connection", RCL + ".__init__"]) for b, c in (("StreamServerBase", RSC), ("WebsocketServer", RWS))]
ASSUMPTIONS = ["msgpack refuses malformed input or yields a value", "the handshake data of a server holds the secret under 'auth' and any other entry (one stands for all others)", "the secret is text, a number, a flag or nothing"]
