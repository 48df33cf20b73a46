"""P11: names resolve to the latest registration."""
from contracts.serve import *
from contracts.p10 import worker, dconst, const, CONST, DW

NAMES = MAP(STR, INT)
CL, DISC = "streamtasks.client:Client", "streamtasks.client.discovery"
def has(m, n): return sel(m_dom(NAMES, m), n)
def at(m, n): return sel(m_val(NAMES, m), n)
def same(itp, a, b, n): return z3.And(has(a, n) == has(b, n), z3.Implies(has(a, n), at(a, n) == at(b, n)))
def names(itp, w): return itp.to_term(itp.getattr(w.o, "_address_map"), NAMES)
def lookup_is(itp, v, m, n):
  """v is what the map m holds for n, or None"""
  if v is None: return z3.Not(has(m, n))
  return z3.And(z3.Implies(has(m, n), itp.bz(itp.eq(v, Sym(at(m, n), INT)))), z3.Implies(z3.Not(has(m, n)), itp.bz(itp.eq(v, None))))

def svc(itp, desc, method="_run_fetch_server"):
  w = worker(itp); memo = []
  decoding(itp, memo=memo)
  itp.st.ghost["cast"] = ()
  def cast(itp_, s, a, k):
    def th():
      itp.st.ghost["cast"] = itp.st.ghost["cast"] + ((a[0], a[1], names(itp, w)),)
      # other handlers run while the broadcast is sent
      m = itp.fresh_const("names", sort(NAMES)); itp.setattr(w.o, "_address_map", itp.new_cont("map", NAMES, m))
    return CoroV(th)
  itp.any_methods[("bc", "broadcast")] = cast
  itp.models["streamtasks.net.serialization:RawData"] = lambda itp_, a, k: a[0]
  hs = capture(itp, lambda: itp.call(itp.getattr(w.o, method), [itp.fresh("client", ANY("client"))]))
  return w, memo, hs[dconst(itp, desc)]

def s_register(itp):
  w, memo, h = svc(itp, "FD_REGISTER_ADDRESS_NAME")
  m0 = names(itp, w)
  st, r = run_handler(itp, h, request(itp))
  if not memo: itp.check("register: an invalid request changes nothing", same(itp, names(itp, w), m0, itp.fresh_const("x", z3.StringSort())) if st != "ok" else False); return
  cast = itp.st.ghost["cast"]
  itp.check("register: never fails", st == "ok")
  itp.check("register: announced once", len(cast) == 1)
  if len(cast) != 1: return
  m1 = cast[0][2]
  n, a = itp.to_term(itp.getattr(memo[0], "address_name"), STR), itp.to_term(itp.getattr(memo[0], "address"), INT)
  x = itp.fresh_const("x", z3.StringSort())
  itp.check("register: the name has the given address", z3.And(has(m1, n), at(m1, n) == a))
  itp.check("register: no other name is affected", z3.Implies(x != n, same(itp, m1, m0, x)))
  itp.check("register: the announcement names it", itp.bz(itp.conj([itp.eq(body_get(itp, cast[0][1], "address_name"), Sym(n, STR)), itp.eq(body_get(itp, cast[0][1], "address"), Sym(a, INT))])))
  itp.check("register: no answer of its own", answers(itp) == ())

def s_resolve(itp):
  w, memo, h = svc(itp, "FD_RESOLVE_ADDRESS")
  m0 = names(itp, w)
  st, r = run_handler(itp, h, request(itp))
  itp.check("resolve: changes nothing", same(itp, names(itp, w), m0, itp.fresh_const("x", z3.StringSort())))
  if not memo: itp.check("resolve: an invalid request is refused", st != "ok"); return
  a = answers(itp)
  itp.check("resolve: one answer, no error", st == "ok" and len(a) == 1 and a[0][0] is False)
  if len(a) != 1: return
  d = itp.deref(a[0][1])
  ok = isinstance(d, LocRef) and isinstance(itp.content(d), PyDictC) and "address" in itp.content(d).d
  itp.check("resolve: the address registered last, or nothing", ok and lookup_is(itp, itp.resolve(body_get(itp, d, "address")), m0, itp.to_term(itp.getattr(memo[0], "address_name"), STR)))

def s_unregister(itp):
  w, memo, h = svc(itp, "SD_UNREGISTER_ADDRESS_NAME", "_run_signal_server")
  m0 = names(itp, w)
  st, r = run_handler(itp, h, itp.fresh("body", ANY("body")))
  m1 = names(itp, w)
  if not memo: itp.check("unregister: an invalid request changes nothing", same(itp, m1, m0, itp.fresh_const("x", z3.StringSort()))); return
  n = itp.to_term(itp.getattr(memo[0], "address_name"), STR)
  x = itp.fresh_const("x", z3.StringSort())
  itp.check("unregister: never fails", st == "ok")
  itp.check("unregister: the name is gone", z3.Not(has(m1, n)))
  itp.check("unregister: no other name is affected", z3.Implies(x != n, same(itp, m1, m0, x)))

# ---------------------------------------------------------------- the client
def client(itp):
  s = type("C", (), {})()
  s.m0 = itp.fresh_const("cache", sort(NAMES))
  s.o = itp.new_obj(itp.cls_by_qual(CL), {"_address_resolver_cache": itp.new_cont("map", NAMES, s.m0), "_address": itp.fresh("own", OPT(INT)), "_link": itp.fresh("link", ANY("link"))})
  s.cache = lambda: itp.to_term(itp.getattr(s.o, "_address_resolver_cache"), NAMES)
  return s

def s_set_name(itp):
  c = client(itp)
  n, a = itp.fresh("name", STR), itp.fresh("address", OPT(INT))
  st, r = attempt(itp, lambda: itp.call(itp.getattr(c.o, "set_address_name"), [n, a]))
  m1 = c.cache(); x = itp.fresh_const("x", z3.StringSort())
  itp.check("cache: never fails", st == "ok")
  itp.check("cache: no other name is affected", z3.Implies(x != n.t, same(itp, m1, c.m0, x)))
  v = itp.resolve(a)
  if v is None: itp.check("cache: the name is forgotten", z3.Not(has(m1, n.t)))
  else: itp.check("cache: the name has the given address", z3.And(has(m1, n.t), at(m1, n.t) == itp.to_term(v, INT)))

def s_client_resolve(itp):
  c = client(itp)
  n = itp.fresh("name", STR)
  itp.st.ghost["asked"] = ()
  def fetch(itp_, a, k):
    itp.st.ghost["asked"] = itp.st.ghost["asked"] + (tuple(a[1:]),)
    m = itp.fresh_const("cache", sort(NAMES)); itp.setattr(c.o, "_address_resolver_cache", itp.new_cont("map", NAMES, m))   # others change it meanwhile
    itp.st.ghost["before"] = m
    if itp.choose(2): itp.raise_py(RuntimeError, "fetch failed")
    return itp.fresh("answer", ANY("body"))
  itp.models[CL + ".fetch"] = fetch
  memo = []
  decoding(itp, memo=memo)
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(c.o, "resolve_address_name"), [n])))
  m1 = c.cache(); x = itp.fresh_const("x", z3.StringSort())
  asked = itp.st.ghost["asked"]
  itp.check("resolving: asks at most once", len(asked) <= 1)
  if not asked:
    itp.check("resolving: answered locally only when the name is known", st == "ok" and z3.And(has(c.m0, n.t), itp.bz(itp.eq(r, Sym(at(c.m0, n.t), INT)))))
    itp.check("resolving: a local answer changes nothing", same(itp, m1, c.m0, x)); return
  itp.check("resolving: asks only for unknown names", z3.Not(has(c.m0, n.t)))
  ep, desc, body = asked[0]
  itp.check("resolving: asks the discovery service for that name", itp.bz(itp.conj([itp.eq(ep, const(itp, "NetworkAddresses", "ID_DISCOVERY")), itp.eq(desc, dconst(itp, "FD_RESOLVE_ADDRESS")), itp.eq(body_get(itp, body, "address_name"), n)])))
  b = itp.st.ghost["before"]
  itp.check("resolving: no other name is affected", z3.Implies(x != n.t, same(itp, m1, b, x)))
  if st != "ok": itp.check("resolving: a failure leaves the cache", same(itp, m1, b, n.t)); return
  a = itp.resolve(itp.getattr(memo[0], "address"))
  itp.check("resolving: yields the answer", itp.bz(itp.eq(r, a)))
  if a is None: itp.check("resolving: an unknown name is not remembered", same(itp, m1, b, n.t))
  else: itp.check("resolving: the answer is remembered", z3.And(has(m1, n.t), at(m1, n.t) == itp.to_term(a, INT)))

def s_context(itp):
  c = client(itp)
  n, given = itp.fresh("name", STR), itp.fresh("given", OPT(INT))
  own = itp.getattr(c.o, "_address")
  g = itp.st.ghost
  g["log"] = ()
  def meanwhile():
    m = itp.fresh_const("cache", sort(NAMES)); itp.setattr(c.o, "_address_resolver_cache", itp.new_cont("map", NAMES, m)); return m
  def fetch(itp_, a, k):
    itp.st.ghost["log"] = itp.st.ghost["log"] + (("fetch", a[1], a[2], a[3]),)
    meanwhile()
    if itp.choose(2): itp.raise_py(RuntimeError, "fetch failed")
    return None
  itp.models[CL + ".fetch"] = fetch
  def signal(itp_, a, k):
    itp.st.ghost["log"] = itp.st.ghost["log"] + (("signal", a[1], a[2], a[3]),)
    itp.st.ghost["last"] = meanwhile()
  itp.models["streamtasks.client.signal:send_signal"] = signal
  itp.st.ghost["body"] = False
  def body():
    m = c.cache()
    itp.st.ghost["body"] = True
    x = itp.fresh_const("x", z3.StringSort())
    itp.check("context: the own registration is known locally", z3.And(has(m, n.t), itp.bz(itp.eq(Sym(at(m, n.t), INT), own if itp.resolve(given) is None else given))))
    meanwhile()
    if itp.choose(2): itp.raise_py(RuntimeError, "body failed")
  ctx = itp.call(itp.module_attr(itp.loader.module(DISC), "address_name_context"), [c.o, n, given])
  st, r = attempt(itp, lambda: itp.with_value(ctx, None, body, None, True))
  log, x = itp.st.ghost["log"], itp.fresh_const("x", z3.StringSort())
  addr = own if itp.resolve(given) is None else given
  if not log:
    itp.check("context: refused only without an address", st != "ok" and itp.bz(itp.eq(addr, None))); return
  disc = const(itp, "NetworkAddresses", "ID_DISCOVERY")
  itp.check("context: registers first", log[0][0] == "fetch" and itp.bz(itp.conj([itp.eq(log[0][1], disc), itp.eq(log[0][2], dconst(itp, "FD_REGISTER_ADDRESS_NAME")), itp.eq(body_get(itp, log[0][3], "address_name"), n), itp.eq(body_get(itp, log[0][3], "address"), addr)])))
  itp.check("context: unregisters at the end", len(log) == 2 and log[1][0] == "signal" and itp.bz(itp.conj([itp.eq(log[1][1], disc), itp.eq(log[1][2], dconst(itp, "SD_UNREGISTER_ADDRESS_NAME")), itp.eq(body_get(itp, log[1][3], "address_name"), n)])))
  if len(log) != 2: return
  m1, b = c.cache(), itp.st.ghost["last"]
  itp.check("context: afterwards the name is not resolved locally", z3.Not(has(m1, n.t)))
  itp.check("context: no other name is affected", z3.Implies(x != n.t, same(itp, m1, b, x)))
  if st == "ok": itp.check("context: a failed registration does not run the body", itp.st.ghost["body"])

def s_constants(itp):
  mod = itp.loader.module(CONST)
  for cname in [c for c in mod.defs if c.startswith("Network")]:
    cls = itp.cls_by_qual(f"{CONST}:{cname}")
    vals = [(n.targets[0].id, itp.getattr(cls, n.targets[0].id)) for n in cls.node.body if isinstance(n, ast.Assign)]
    for i, (n, v) in enumerate(vals):
      for n2, v2 in vals[i + 1:]:
        itp.check(f"{cname}: {n} and {n2} are distinct", itp.bz(itp.neg(itp.eq(v, v2))))
  itp.check("there are constants", len(itp.obligations) > 0)

SCENARIOS = [Scn("register address name", s_register, [DW + "._run_fetch_server"]), Scn("resolve address name", s_resolve, [DW + "._run_fetch_server"]), Scn("unregister address name", s_unregister, [DW + "._run_signal_server"]),
  Scn("Client.set_address_name", s_set_name, [CL + ".set_address_name"]), Scn("Client.resolve_address_name", s_client_resolve, [CL + ".resolve_address_name"]),
  Scn("address_name_context", s_context, [DISC + ":address_name_context"]), Scn("constants", s_constants, [CONST])]
ASSUMPTIONS = ["requests and signals are answered as in P12", "the registrations of one name reach the discovery service in the order they are made"]
