"""P10: allocated ids are never handed out twice."""
from contracts.serve import *

DW = "streamtasks.services.discovery:DiscoveryWorker"
DC = "streamtasks.client.discovery:DiscoveryConstants"
IDS, TMAP = SET(INT), MAP(INT, INT)
SPACES = MAP(INT, TMAP)
CONST = "streamtasks.services.constants"

def const(itp, cls, name): return itp.getattr(itp.cls_by_qual(f"{CONST}:{cls}"), name)
def dconst(itp, name): return itp.getattr(itp.cls_by_qual(DC), name)

def worker(itp):
  itp.ext_models["logging.info"] = itp.ext_models["logging.debug"] = lambda *a: None
  s = type("S", (), {})()
  s.f = {n: itp.fresh(n, INT) for n in ("_address_counter", "_topics_counter", "_topic_space_id_counter")}
  s.spaces = itp.fresh_const("spaces", sort(SPACES))
  s.t = {n: v.t for n, v in s.f.items()}
  for n, c in (("_address_counter", "NetworkAddresses"), ("_topics_counter", "NetworkTopics")):
    itp.assume(s.t[n] >= itp.to_term(const(itp, c, "COUNTER_INIT"), INT))     # invariant
  itp.assume(s.t["_topic_space_id_counter"] >= 0)
  k = z3.Int("k!sp")
  itp.assume(M.mk_forall([k], z3.Implies(sel(m_dom(SPACES, s.spaces), k), z3.And(k >= 1, k <= s.t["_topic_space_id_counter"])), [[sel(m_dom(SPACES, s.spaces), k)]]))
  s.o = itp.new_obj(itp.cls_by_qual(DW), {**s.f, "_topic_spaces": itp.new_cont("map", SPACES, s.spaces), "_address_map": itp.new_cont("map", MAP(STR, INT), itp.fresh_const("names", sort(MAP(STR, INT)))),
    "_bc_server": itp.fresh("bc", ANY("bc"))})
  s.now = lambda n: itp.to_term(itp.getattr(s.o, n), INT)
  s.spaces_now = lambda: itp.to_term(itp.getattr(s.o, "_topic_spaces"), SPACES)
  return s

def other(n): return "_address_counter" if n == "_topics_counter" else "_topics_counter"

def s_generate(fn, counter):
  def s(itp):
    w = worker(itp)
    n = itp.fresh("count", INT)
    c0 = w.t[counter]
    x0 = z3.Int("x!gen")
    def hint(lc):   # ids collected one by one: exactly the block walked through so far
      out = []
      ints = [("the counter", lambda: w.now(counter))] + [(str(k), lambda k=k: lc.term(k)) for k, t in lc.local_keys(lambda t: t is INT)]
      for k, t in lc.local_keys(lambda t: t is SET(INT)):
        for nm, end in ints:
          out.append((f"{k} holds the ids up to {nm}", lambda D, k=k, end=end: z3.And(end() >= c0, M.mk_forall([x0], sel(lc.term(k), x0) == z3.And(c0 <= x0, x0 < end()), [[sel(lc.term(k), x0)]]))))
      return out
    itp.loop_hints.append(hint)
    st, r = attempt(itp, lambda: itp.call(itp.getattr(w.o, fn), [n]))
    x = itp.fresh_const("x", z3.IntSort())
    c1 = w.now(counter)
    if st != "ok":
      itp.check(f"{fn}: only a negative number is refused", n.t < 0)
      itp.check(f"{fn}: refusing allocates nothing", c1 == c0)
      return
    ty, R = M.as_set(itp, r, INT)
    if R is None: R = empty_set(INT)
    itp.check(f"{fn}: exactly the next ids", sel(R, x) == z3.And(x >= c0, x < c0 + n.t))
    itp.check(f"{fn}: as many ids as requested", z3.And(n.t >= 0, c1 - c0 == n.t))
    itp.check(f"{fn}: none handed out before, none reserved", z3.Implies(sel(R, x), x >= c0))
    itp.check(f"{fn}: everything handed out lies below the counter", z3.Implies(z3.Or(x < c0, sel(R, x)), x < c1))
    itp.check(f"{fn}: the other allocations are untouched", z3.And(w.now(other(counter)) == w.t[other(counter)], w.now("_topic_space_id_counter") == w.t["_topic_space_id_counter"], w.spaces_now() == w.spaces))
  return s

def gen_contract(itp, w):
  """the contract of the two generators (scenarios above)"""
  g = itp.st.ghost
  g["generated"] = ()
  def model(fn, counter):
    def m(itp_, a, k):
      n = itp.to_term(a[1] if len(a) > 1 else k["count"], INT)
      c0 = w.now(counter)
      if itp.decide(n < 0): itp.raise_py(ValueError, "negative")
      R = itp.fresh_const("ids", sort(IDS)); x = z3.Int("x!ge")
      itp.assume(M.mk_forall([x], sel(R, x) == z3.And(x >= c0, x < c0 + n), [[sel(R, x)]]))
      itp.setattr(a[0], counter, Sym(c0 + n, INT))
      out = itp.new_cont("set", IDS, R)
      itp.assume(M.card(itp, IDS, R) == n)
      itp.st.ghost["generated"] = itp.st.ghost["generated"] + ((counter, n, R),)
      return out
    return m
  itp.models[DW + ".generate_topic_ids"] = model("generate_topic_ids", "_topics_counter")
  itp.models[DW + ".generate_addresses"] = model("generate_addresses", "_address_counter")

def handlers(itp, w, method="_run_fetch_server"):
  return capture(itp, lambda: itp.call(itp.getattr(w.o, method), [itp.fresh("client", ANY("client"))]))

def term_ids(itp, v):
  v = itp.deref(v)
  try: ty, t = M.as_set(itp, v, INT)
  except Unsupported: return None
  return empty_set(INT) if t is None else t

def s_request(desc, counter, key):
  def s(itp):
    w = worker(itp); memo = []
    decoding(itp, memo=memo); gen_contract(itp, w)
    h = handlers(itp, w)[dconst(itp, desc)]
    st, r = run_handler(itp, h, request(itp))
    if st != "ok":
      itp.check(f"{desc}: only an invalid request is refused", exc_is(itp, r, ValueError))
      itp.check(f"{desc}: refusing allocates nothing", w.now(counter) == w.t[counter])
      return
    a = answers(itp)
    itp.check(f"{desc}: one answer, no error", len(a) == 1 and a[0][0] is False)
    gs = itp.st.ghost["generated"]
    itp.check(f"{desc}: one allocation", len(gs) == 1 and gs[0][0] == counter)
    if len(a) != 1 or len(gs) != 1: return
    ids = body_get(itp, a[0][1], key)
    itp.check(f"{desc}: as many as requested", gs[0][1] == itp.to_term(itp.getattr(memo[0], "count"), INT))
    R = term_ids(itp, ids) if ids is not None else None
    itp.check(f"{desc}: ids are answered", R is not None)
    if R is None: return
    x = itp.fresh_const("x", z3.IntSort())
    itp.check(f"{desc}: exactly the allocated ids are answered", sel(R, x) == sel(gs[0][2], x))
    itp.check(f"{desc}: the other counter is untouched", w.now(other(counter)) == w.t[other(counter)])
    itp.check(f"{desc}: topic spaces are untouched", w.spaces_now() == w.spaces)
  return s

def s_signal(itp):
  w = worker(itp); memo = []
  decoding(itp, memo=memo); gen_contract(itp, w)
  itp.st.ghost["sent"] = ()
  def send(itp_, s, a, k):
    def th(): itp.st.ghost["sent"] = itp.st.ghost["sent"] + ((a[0], a[1]),)
    return CoroV(th)
  itp.any_methods[("client", "send_stream_data")] = send
  itp.models["streamtasks.net.serialization:RawData"] = lambda itp_, a, k: a[0]
  h = handlers(itp, w, "_run_signal_server")[dconst(itp, "FD_SD_REQUEST_ADDRESSES")]
  st, r = run_handler(itp, h, itp.fresh("body", ANY("body")))
  if st != "ok":
    itp.check("signal: only an invalid request is refused", exc_is(itp, r, ValueError))
    itp.check("signal: refusing allocates nothing", w.now("_address_counter") == w.t["_address_counter"])
    return
  gs, sent = itp.st.ghost["generated"], itp.st.ghost["sent"]
  itp.check("signal: one allocation", len(gs) == 1 and gs[0][0] == "_address_counter")
  itp.check("signal: one answer", len(sent) == 1)
  if len(gs) != 1 or len(sent) != 1: return
  itp.check("signal: as many as requested", gs[0][1] == itp.to_term(itp.getattr(memo[0], "count"), INT))
  itp.check("signal: answered on the address topic", itp.bz(itp.eq(sent[0][0], const(itp, "NetworkTopics", "ADDRESSES_CREATED"))))
  rid, ids = body_get(itp, sent[0][1], "request_id"), body_get(itp, sent[0][1], "addresses")
  itp.check("signal: the answer names the request", rid is not None and itp.bz(itp.eq(rid, itp.getattr(memo[0], "request_id"))))
  R = term_ids(itp, ids) if ids is not None else None
  x = itp.fresh_const("x", z3.IntSort())
  itp.check("signal: exactly the allocated addresses are answered", R is not None and sel(R, x) == sel(gs[0][2], x))

def s_space(itp):
  w = worker(itp); memo = []
  decoding(itp, memo=memo); gen_contract(itp, w)
  h = handlers(itp, w)[dconst(itp, "FD_REGISTER_TOPIC_SPACE")]
  st, r = run_handler(itp, h, request(itp))
  if st != "ok":
    itp.check("space: only an invalid request is refused", exc_is(itp, r, ValueError) and not memo)
    return
  L = itp.to_term(itp.getattr(memo[0], "topic_ids"), LIST(INT))
  n = l_len(LIST(INT), L)
  gs, a = itp.st.ghost["generated"], answers(itp)
  itp.check("space: one allocation of topics", len(gs) == 1 and gs[0][0] == "_topics_counter")
  if len(gs) != 1: return
  S1 = w.spaces_now()
  sid = w.now("_topic_space_id_counter")
  itp.check("space: the id is new", z3.Not(sel(m_dom(SPACES, w.spaces), sid)))
  itp.check("space: the id is never given again", sid > w.t["_topic_space_id_counter"])
  k, i, j = (itp.fresh_const(c, z3.IntSort()) for c in "kij")
  itp.check("space: exactly the new one is added", sel(m_dom(SPACES, S1), k) == z3.Or(sel(m_dom(SPACES, w.spaces), k), k == sid))
  itp.check("space: the other spaces are untouched", z3.Implies(k != sid, sel(m_val(SPACES, S1), k) == sel(m_val(SPACES, w.spaces), k)))
  T = sel(m_val(SPACES, S1), sid)
  tv = lambda x: sel(m_val(TMAP, T), x); td = lambda x: sel(m_dom(TMAP, T), x)
  at = lambda i: sel(l_arr(LIST(INT), L), i)
  q = z3.Int("q!sp")
  itp.check("space: every given topic is mapped", z3.Implies(z3.And(i >= 0, i < n), td(at(i))))
  itp.check("space: only given topics are mapped", z3.Implies(td(k), z3.Exists([q], z3.And(q >= 0, q < n, at(q) == k))))
  itp.check("space: every topic is mapped to a fresh topic", z3.Implies(td(k), sel(gs[0][2], tv(k))))
  itp.check("space: different topics get different topics", z3.Implies(z3.And(td(i), td(j), i != j), tv(i) != tv(j)))
  itp.check("space: one answer, no error", len(a) == 1 and a[0][0] is False)
  if len(a) == 1:
    idv = body_get(itp, a[0][1], "id")
    itp.check("space: the answer names the space", idv is not None and itp.bz(itp.eq(idv, Sym(sid, INT))))

def s_lookup(desc):
  def s(itp):
    w = worker(itp); memo = []
    decoding(itp, memo=memo); gen_contract(itp, w)
    h = handlers(itp, w)[dconst(itp, desc)]
    st, r = run_handler(itp, h, request(itp))
    if st != "ok": itp.check(f"{desc}: only an invalid request fails", not memo); return
    S, S1 = w.spaces, w.spaces_now()
    sid = itp.to_term(itp.getattr(memo[0], "topic_space_id" if "TRANSLATION" in desc else "id"), INT)
    a = answers(itp)
    known = sel(m_dom(SPACES, S), sid)
    itp.check(f"{desc}: one answer", len(a) == 1)
    if len(a) != 1: return
    k = itp.fresh_const("k", z3.IntSort())
    if desc == "FD_DELETE_TOPIC_SPACE":
      itp.check("delete: exactly that space is gone", sel(m_dom(SPACES, S1), k) == z3.And(sel(m_dom(SPACES, S), k), k != sid))
      itp.check("delete: the others keep their topics", z3.Implies(k != sid, sel(m_val(SPACES, S1), k) == sel(m_val(SPACES, S), k)))
      itp.check("delete: an error iff there is no such space", z3.Not(known) if a[0][0] else known)
      return
    itp.check(f"{desc}: nothing changes", S1 == S)
    T = sel(m_val(SPACES, S), sid)
    if desc == "FD_GET_TOPIC_SPACE_TRANSLATION":
      t = itp.to_term(itp.getattr(memo[0], "topic_id"), INT)
      ok = z3.And(known, sel(m_dom(TMAP, T), t))
      itp.check("translation: an error iff there is none", z3.Not(ok) if a[0][0] else ok)
      if not a[0][0]:
        v = body_get(itp, a[0][1], "topic_id")
        itp.check("translation: that of this space", v is not None and itp.bz(itp.eq(v, Sym(sel(m_val(TMAP, T), t), INT))))
    else:
      itp.check("space lookup: an error iff there is none", z3.Not(known) if a[0][0] else known)
      if not a[0][0]:
        v = body_get(itp, a[0][1], "id")
        itp.check("space lookup: names the space", v is not None and itp.bz(itp.eq(v, Sym(sid, INT))))
  return s

def s_init(itp):
  itp.models["streamtasks.worker:Worker.__init__"] = lambda *a: None
  o = itp.call(itp.cls_by_qual(DW), [])
  for c, cls in (("_address_counter", "NetworkAddresses"), ("_topics_counter", "NetworkTopics")):
    init = itp.getattr(o, c)
    members = [n.targets[0].id for n in itp.cls_by_qual(f"{CONST}:{cls}").node.body if isinstance(n, ast.Assign)]
    for m in members:
      if m != "COUNTER_INIT": itp.check(f"{cls}.{m} lies below the allocated range", itp.bz(M.order(itp, "Lt", const(itp, cls, m), init)))
    itp.check(f"{c} starts at the beginning of the range", itp.bz(itp.eq(init, const(itp, cls, "COUNTER_INIT"))))

def s_idgen(itp):
  a, b, c = (itp.fresh(n, INT) for n in ("start", "end", "current"))
  itp.assume(z3.And(a.t <= c.t, c.t < b.t))
  o = itp.new_obj(itp.cls_by_qual("streamtasks.utils:IdGenerator"), {"_current": c, "_start": a, "_end": b})
  st, r = attempt(itp, lambda: itp.call(itp.getattr(o, "next"), []))
  itp.check("next never fails", st == "ok")
  if st != "ok": return
  rt, c1 = itp.to_term(r, INT), itp.to_term(itp.getattr(o, "_current"), INT)
  n = b.t - a.t
  itp.check("next gives an id of the range", z3.And(rt >= a.t, rt < b.t))
  itp.check("next gives the current id", rt == c.t)
  itp.check("the following id is the cyclic successor", z3.And(c1 >= a.t, c1 < b.t, z3.Or(c1 == c.t + 1, z3.And(c1 == a.t, c.t + 1 == b.t))))
  itp.check("the range is kept", z3.And(itp.to_term(itp.getattr(o, "_start"), INT) == a.t, itp.to_term(itp.getattr(o, "_end"), INT) == b.t))

def s_idgen_lemma(itp):
  """k steps of the cyclic successor reach start + (current - start + k) mod n: an id comes again only after n steps"""
  a, n, p, k = (itp.fresh_const(x, z3.IntSort()) for x in ("start", "n", "p", "k"))
  at = itp.fresh_fn("at", z3.IntSort(), z3.IntSort())
  j = z3.Int("j!id")
  itp.assume(z3.And(n > 0, p >= 0, p < n, at(0) == p))
  itp.assume(M.mk_forall([j], z3.Implies(j >= 0, at(j + 1) == z3.If(at(j) + 1 == n, z3.IntVal(0), at(j) + 1)), [[at(j)]]))
  pos = lambda k: z3.If(p + k < n, p + k, p + k - n)
  itp.check("cyclic ids: induction start", at(0) == pos(z3.IntVal(0)))
  itp.check("cyclic ids: induction step", z3.Implies(z3.And(k >= 0, k + 1 < n, at(k) == pos(k)), at(k + 1) == pos(k + 1)))
  itp.check("cyclic ids: no id comes again within the range", z3.Implies(z3.And(k > 0, k < n), pos(k) != p))

def s_idgen_init(itp):
  a, b = itp.fresh("start", INT), itp.fresh("end", INT)
  st, o = attempt(itp, lambda: itp.call(itp.cls_by_qual("streamtasks.utils:IdGenerator"), [a, b]))
  if st != "ok": itp.check("only an empty range is refused", a.t >= b.t); return
  c = itp.to_term(itp.getattr(o, "_current"), INT)
  itp.check("the generator starts inside its range", z3.And(c >= a.t, c < b.t, itp.to_term(itp.getattr(o, "_start"), INT) == a.t, itp.to_term(itp.getattr(o, "_end"), INT) == b.t))

def s_ports(itp):
  seen = []
  itp.models["streamtasks.utils:IdGenerator"] = lambda itp_, a, k: (seen.append(a), itp.fresh("gen", ANY("gen")))[1]
  itp.ext_models["asyncio.Event"] = lambda itp_, a, k: itp.fresh("event", ANY("event"))
  for q in ("IdTracker", "AwaitableIdTracker"): itp.models["streamtasks.utils:" + q] = lambda itp_, a, k: itp.fresh("tracker", ANY("tracker"))
  itp.call(itp.cls_by_qual("streamtasks.client:Client"), [itp.fresh("link", ANY("link"))])
  itp.check("a client has one port generator", len(seen) == 1)
  cls = itp.cls_by_qual(CONST + ":NetworkPorts")
  for n in cls.node.body:
    if isinstance(n, ast.Assign) and n.targets[0].id != "DYNAMIC_START":
      itp.check(f"port {n.targets[0].id} lies below the dynamic range", itp.bz(M.order(itp, "Lt", itp.getattr(cls, n.targets[0].id), seen[0][0])))

def s_port_next(itp):
  itp.any_methods[("gen", "next")] = lambda itp_, s, a, k: Sym(itp.fresh_const("next", z3.IntSort()), INT)
  g = itp.fresh("gen", ANY("gen")); calls = []
  itp.any_methods[("gen", "next")] = lambda itp_, s, a, k: (calls.append(1), Sym(z3.Int("the_next_port"), INT))[1]
  o = itp.new_obj(itp.cls_by_qual("streamtasks.client:Client"), {"_port_generator": g})
  r = itp.call(itp.getattr(o, "get_free_port"), [])
  itp.check("a free port is the generator's next id", len(calls) == 1 and itp.bz(itp.eq(r, Sym(z3.Int("the_next_port"), INT))))

SCENARIOS = [Scn("generate_topic_ids", s_generate("generate_topic_ids", "_topics_counter"), [DW + ".generate_topic_ids"]), Scn("generate_addresses", s_generate("generate_addresses", "_address_counter"), [DW + ".generate_addresses"]),
  Scn("request topics", s_request("FD_REQUEST_TOPICS", "_topics_counter", "topics"), [DW + "._run_fetch_server"]), Scn("request addresses", s_request("FD_SD_REQUEST_ADDRESSES", "_address_counter", "addresses"), [DW + "._run_fetch_server"]),
  Scn("request addresses by signal", s_signal, [DW + "._run_signal_server"]), Scn("register topic space", s_space, [DW + "._run_fetch_server"])] + \
  [Scn(d, s_lookup(d), [DW + "._run_fetch_server"]) for d in ("FD_GET_TOPIC_SPACE_TRANSLATION", "FD_GET_TOPIC_SPACE", "FD_DELETE_TOPIC_SPACE")] + \
  [Scn("DiscoveryWorker.__init__", s_init, [DW + ".__init__"]), Scn("IdGenerator.next", s_idgen, ["streamtasks.utils:IdGenerator.next"]), Scn("IdGenerator.__init__", s_idgen_init, ["streamtasks.utils:IdGenerator.__init__"]),
   Scn("cyclic ids lemma", s_idgen_lemma, []), Scn("Client ports", s_ports, ["streamtasks.client:Client.__init__"]), Scn("Client.get_free_port", s_port_next, ["streamtasks.client:Client.get_free_port"])]
ASSUMPTIONS = ["one discovery worker serves all (handlers of one server run one at a time; the allocations themselves contain no suspension, which is part of what is proved)"]
