"""P05: upstream subscriptions follow downstream demand."""
from contracts.routes import *

IT = "streamtasks.utils:IdTracker"
def tracker_obj(itp):
  m = itp.fresh_const("counts", sort(COUNTS))
  return itp.new_obj(itp.cls_by_qual(IT), {"_map": itp.new_cont("map", COUNTS, m)}), m
def counts_now(itp, o): return itp.to_term(itp.getattr(o, "_map"), COUNTS)

def s_ids(op):
  """IdTracker: counts, and reports exactly the ids whose count leaves or reaches zero"""
  def s(itp):
    o, m0 = tracker_obj(itp)
    itp.assume(cinv(m0))
    S, ids = new_set(itp, "ids", INT)
    i, x = z3.Int("i!id"), z3.Int("x!id")
    def hint(lc):
      if lc.seg is None or lc.seg.bty is not INT: return []
      m = lambda: counts_now(itp, o)
      out = [("counts", lambda D: M.mk_forall([i], ccount(m(), i) == (ccount(m0, i) + one(D(i)) if op == "add" else ccount(m0, i) - one(z3.And(D(i), ccount(m0, i) > 0))), [[sel(m_dom(COUNTS, m()), i)], [D(i)]])),
        ("positive", lambda D: cinv(m()))]
      for key, ty in lc.local_keys(lambda t: t is IDS):
        r = lambda key=key: lc.term(key)
        out.append((f"crossings {key}", lambda D, r=r: M.mk_forall([i], sel(r(), i) == z3.And(sel(m_dom(COUNTS, m()), i) != sel(m_dom(COUNTS, m0), i)), [[sel(r(), i)], [sel(m_dom(COUNTS, m()), i)]])))
      return out
    itp.loop_hints.append(hint)
    if op == "force": r = itp.call(itp.getattr(o, "remove_many"), [ids], {"force": True})
    else: r = itp.call(itp.getattr(o, op + "_many"), [ids])
    m1 = counts_now(itp, o); R = term_set(itp, r, INT)
    x = itp.fresh_const("x", z3.IntSort())
    itp.check(f"{op}: an id is in use exactly while its count is positive", cinv(m1))
    if op == "add": itp.check("add: counts each given id once", ccount(m1, x) == ccount(m0, x) + one(sel(S, x)))
    else: itp.check("remove: uncounts each given id once, never below zero", ccount(m1, x) == ccount(m0, x) - one(z3.And(sel(S, x), ccount(m0, x) > 0)))
    itp.check(f"{op}: reports exactly the ids whose use begins or ends", sel(R, x) == (sel(m_dom(COUNTS, m1), x) != sel(m_dom(COUNTS, m0), x)))
    k = itp.call(itp.getattr(o, "__contains__"), [Sym(x, INT)])
    itp.check(f"{op}: in use iff counted", itp.to_term(k, BOOL) == (ccount(m1, x) >= 1))
  return s

class Dem:
  """the switch's demand state: who wants what, who is asked for what"""
  def __init__(self, itp, w): self.itp, self.w = itp, w
  def recv(self, l, t): return sel(self.itp.fld_get(LINK, "recv_topics", l), t)
  def closed(self, l): return self.itp.fld_get(LINK, "_closed", l)
  def price(self, l): return self.itp.fld_get(LINK, "out_topics", l)
  def link(self, l): return is_link(self.w, l, links_now(self.itp, self.w))
  def live(self, l): return z3.And(self.link(l), z3.Not(self.closed(l)))
  def wanted(self, t): return sel(m_dom(COUNTS, counts_now(self.itp, self.itp.getattr(self.w.o, "in_topics"))), t)
  def v(self): return T.view(self.itp, self.itp.getattr(self.w.o, "out_topics"))

def inv_routes(itp, d, own):
  """tables are the cheapest offers of the links (P04's lemma, for topics)"""
  v = d.v(); t, l = z3.Int("t!rt"), z3.Const("l!rt", sort(L))
  return [M.mk_forall([t], z3.Implies(v.known(t), z3.And(d.link(own(t)), offers(d.price(own(t)), t, v.best(t)))), [[v.known(t)], [v.best(t)]]),
    M.mk_forall([t, l], z3.Implies(z3.And(d.link(l), dom(d.price(l), t)), z3.And(v.known(t), v.best(t) <= val(d.price(l), t))), [[dom(d.price(l), t)], [d.link(l), v.known(t)]])]

def inv_demand(itp, d, prov, fall):
  """I1: unwanted topics are asked from nobody; I2: a topic is asked from at most one link (prov); I3: a wanted, known topic
  is asked from a link at the best price - or from nobody while the link at the best price (fall) is closing"""
  v = d.v(); t, l = z3.Int("t!dm"), z3.Const("l!dm", sort(L))
  asked = lambda t: z3.And(d.live(prov(t)), d.recv(prov(t), t))
  return [M.mk_forall([t, l], z3.Implies(z3.And(d.live(l), d.recv(l, t)), z3.And(d.wanted(t), l == prov(t))), [[d.recv(l, t)]]),
    M.mk_forall([t], z3.Implies(z3.And(d.wanted(t), v.known(t)), z3.Or(
      z3.And(asked(t), offers(d.price(prov(t)), t, v.best(t))),
      z3.And(z3.Not(asked(t)), d.link(fall(t)), d.closed(fall(t)), offers(d.price(fall(t)), t, v.best(t))))), [[d.wanted(t)], [v.known(t)]])]

def check_demand(itp, d, what, cases=(lambda t: z3.BoolVal(True),)):
  """after the event the invariant holds for an arbitrary topic and links"""
  v = d.v()
  t = itp.fresh_const("t", z3.IntSort()); l, m = fresh_link(itp, "l"), fresh_link(itp, "m")
  itp.check(f"{what}: only wanted topics are asked for", z3.Implies(z3.And(d.live(l), d.recv(l, t)), d.wanted(t)))
  itp.check(f"{what}: a topic is asked from one link only", z3.Implies(z3.And(d.live(l), d.recv(l, t), d.live(m), d.recv(m, t)), l == m))
  for n, c in enumerate(cases): itp.check(f"{what}: never asked from a more expensive provider" + (f" ({n})" if n else ""), z3.Implies(z3.And(c(t), d.wanted(t), v.known(t), d.live(l), d.recv(l, t)), offers(d.price(l), t, v.best(t))))
  good = lambda k: z3.And(d.link(k), offers(d.price(k), t, v.best(t)), z3.Or(d.closed(k), d.recv(k, t)))
  itp.check(f"{what}: a wanted topic with a provider is asked from a cheapest one (unless that one is closing)", z3.Implies(z3.And(d.wanted(t), v.known(t)), z3.Or(*[good(c(t)) for c in itp.st.ghost["cands"]])))

def lemma(itp, name, sorts, body, pats):
  """an obligation for arbitrary values, then available to the obligations that follow"""
  itp.check("lemma: " + name, body(*[itp.fresh_const("y", s) for s in sorts]))
  vs = [z3.Const(f"y{n}!lm", s) for n, s in enumerate(sorts)]
  itp.assume(M.mk_forall(vs, body(*vs), pats(*vs)))
NUM = z3.IntSort()

def only_closing(itp, d, c):
  """at most the link c is closing"""
  l = z3.Const("l!oc", sort(L))
  itp.assume(M.mk_forall([l], z3.Implies(z3.And(d.link(l), l != c) if c is not None else d.link(l), z3.Not(d.closed(l))), [[d.link(l)], [d.closed(l)]]))

IMSG = REC(MSG + ":InTopicsChangedMessage", add=SET(INT), remove=SET(INT))
def s_request(itp):
  sw_setup(itp)
  w = new_switch(itp)
  d = Dem(itp, w)
  itp.rec_types[MSG + ":InTopicsChangedMessage"] = IMSG
  A, a = new_set(itp, "add", INT); R, r = new_set(itp, "remove", INT)
  r0 = itp.fld_arr(LINK, "recv_topics")
  def send(itp_, args, kw):
    """P02's contract of Link.send for subscription changes"""
    l = itp.to_term(args[0], L)
    if itp.decide(d.closed(l)): raise PyRaise(cce(itp))
    m = itp.deref(args[1])
    if isinstance(m, Sym): ad, rm = r_get(IMSG, "add", m.t), r_get(IMSG, "remove", m.t)
    else: ad, rm = field_set(itp, m, "add", INT), field_set(itp, m, "remove", INT)
    old = itp.fld_get(LINK, "recv_topics", l)
    new = itp.fresh_const("recv", sort(IDS)); x = z3.Int("x!sn")
    itp.assume(M.mk_forall([x], sel(new, x) == z3.And(z3.Or(sel(old, x), sel(ad, x)), z3.Not(sel(rm, x))), [[sel(new, x)], [sel(old, x)]]))
    itp.fld_set(LINK, "recv_topics", l, new)
  itp.models[LINK + ".send"] = send
  own = itp.fresh_fn("owner", z3.IntSort(), sort(L))
  for f in inv_routes(itp, d, own): itp.assume(f)
  itp.assume(d.v().inv())
  links = w.links
  itp.loop_hints.append(request_hints(itp, d, A, R, r0))
  st, v = attempt(itp, lambda: run(itp, w.o, "request_in_topics_change", [a, r]))
  itp.check("request: never fails", st == "ok")
  if st != "ok": return
  r1 = itp.fld_arr(LINK, "recv_topics")
  t, l, m = itp.fresh_const("t", z3.IntSort()), fresh_link(itp, "l"), fresh_link(itp, "m")
  before, after = sel(sel(r0, l), t), sel(sel(r1, l), t)
  open_ = z3.And(d.link(l), z3.Not(d.closed(l)))
  itp.check("request: a closed link and other switches' links stay as they are", z3.Implies(z3.Not(open_), after == before))
  itp.check("request: no other topic's request changes", z3.Implies(z3.Not(z3.Or(sel(A, t), sel(R, t))), after == before))
  itp.check("request: withdrawn from every link it was asked from", z3.Implies(z3.And(open_, sel(R, t), before), z3.Not(after)))
  itp.check("request: kept where it is not withdrawn", z3.Implies(z3.And(open_, z3.Not(sel(R, t)), before), after))
  itp.check("request: asked from a cheapest provider only", z3.Implies(z3.And(after, z3.Not(before)), z3.And(sel(A, t), offers(d.price(l), t, d.v().best(t)))))
  bm, am = sel(sel(r0, m), t), sel(sel(r1, m), t)
  k = z3.Const("k!rx", sort(L))
  bk, ak = sel(sel(r0, k), t), sel(sel(r1, k), t)
  itp.check("request: a topic with a provider is asked from a cheapest one", z3.Implies(z3.And(sel(A, t), d.v().known(t)), z3.Exists([k], z3.And(d.link(k), offers(d.price(k), t, d.v().best(t)), z3.Or(d.closed(k), bk, ak), z3.Implies(z3.And(after, z3.Not(before)), l == k)), patterns=[d.link(k)])))
  itp.check("request: asked from one provider only", z3.Implies(z3.And(after, z3.Not(before), am, z3.Not(bm)), l == m))

MM = MAP(L, IMSG)
def request_hints(itp, d, A, R, r0):
  t, l, m, k = z3.Int("t!rh"), z3.Const("l!rh", sort(L)), z3.Const("m!rh", sort(L)), z3.Const("k!rh", sort(L))
  def hint(lc):
    if lc.seg is None: return []
    out = []
    best = lambda l, t: z3.And(d.link(l), offers(d.price(l), t, d.v().best(t)))
    for key, ty in lc.local_keys(lambda t: t is MM):
      cm, c0 = (lambda key=key: lc.term(key)), (lambda key=key: lc.pre_term(key))
      dm = lambda c, l: sel(m_dom(MM, c), l)
      ad = lambda c, l, t: sel(r_get(IMSG, "add", sel(m_val(MM, c), l)), t)
      rm = lambda c, l, t: sel(r_get(IMSG, "remove", sel(m_val(MM, c), l)), t)
      E = lambda c, l, t: z3.And(dm(c, l), ad(c, l, t))
      if lc.seg.bty is INT:
        out += [
          (f"asked from a cheapest provider {key}", lambda D, cm=cm: M.mk_forall([l, t], z3.Implies(E(cm(), l, t), z3.And(best(l, t), sel(A, t))), [[ad(cm(), l, t)]])),
          (f"asked topics were handled {key}", lambda D, cm=cm: M.mk_forall([l, t], z3.Implies(E(cm(), l, t), D(t)), [[ad(cm(), l, t)]])),
          (f"asked from one {key}", lambda D, cm=cm: M.mk_forall([l, m, t], z3.Implies(z3.And(E(cm(), l, t), E(cm(), m, t)), l == m), [[ad(cm(), l, t), ad(cm(), m, t)]])),
          (f"every handled topic is asked {key}", lambda D, cm=cm: M.mk_forall([t], z3.Implies(z3.And(D(t), d.v().known(t)), z3.Exists([k], E(cm(), k, t), patterns=[dm(cm(), k)])), [[D(t)]] if lc.dpat(t) else ())),
          (f"no withdrawals yet {key}", lambda D, cm=cm: M.mk_forall([l, t], z3.Implies(dm(cm(), l), z3.Not(rm(cm(), l, t))), [[rm(cm(), l, t)]])),
          (f"only links {key}", lambda D, cm=cm: M.mk_forall([l], z3.Implies(dm(cm(), l), d.link(l)), [[dm(cm(), l)]])),
          (f"same links {key}", lambda D, cm=cm, c0=c0: M.mk_forall([l], dm(cm(), l) == dm(c0(), l), [[dm(cm(), l)], [dm(c0(), l)]])),
          (f"additions stay {key}", lambda D, cm=cm, c0=c0: M.mk_forall([l, t], ad(cm(), l, t) == ad(c0(), l, t), [[ad(cm(), l, t)], [ad(c0(), l, t)]])),
        ]
        for n, x in itp.st.frames[lc.fid].items():
          if isinstance(x, Sym) and x.ty is L: out.append((f"withdrawals of {n} so far {key}", lambda D, cm=cm, c0=c0, me=x.t: M.mk_forall([l, t], rm(cm(), l, t) == z3.Or(rm(c0(), l, t), z3.And(l == me, D(t))), [[rm(cm(), l, t)], [rm(c0(), l, t)]])))
      if lc.seg.bty is L:
        rr = lambda l, t: sel(sel(r0, l), t)
        out += [
          (f"withdrawals so far {key}", lambda D, cm=cm: M.mk_forall([l, t], z3.Implies(dm(cm(), l), rm(cm(), l, t) == z3.And(D(l), rr(l, t), sel(R, t))), [[rm(cm(), l, t)]])),
          (f"withdrawals all recorded {key}", lambda D, cm=cm: M.mk_forall([l, t], z3.Implies(z3.And(D(l), rr(l, t), sel(R, t)), dm(cm(), l)), [[rr(l, t)]])),
          (f"additions stay {key}", lambda D, cm=cm, c0=c0: M.mk_forall([l, t], E(cm(), l, t) == E(c0(), l, t), [[ad(cm(), l, t)], [ad(c0(), l, t)]])),
          (f"only links {key}", lambda D, cm=cm: M.mk_forall([l], z3.Implies(dm(cm(), l), d.link(l)), [[dm(cm(), l)]])),
          (f"links stay {key}", lambda D, cm=cm, c0=c0: M.mk_forall([l], z3.Implies(dm(c0(), l), dm(cm(), l)), [[dm(cm(), l)], [dm(c0(), l)]])),
        ]
    if lc.seg.bty is L:
      rr = lambda l, t: sel(sel(r0, l), t)
      now = lambda l, t: sel(itp.fld_get(LINK, "recv_topics", l), t)
      for n, x in itp.st.frames[lc.fid].items():
        if not isinstance(x, LocRef): continue
        c = itp.content(x)
        if getattr(c, "ty", None) is not MM: continue
        out.append((f"requests sent so far {n}", lambda D, c=c.t: M.mk_forall([l, t], now(l, t) == z3.If(z3.And(D(l), z3.Not(d.closed(l))), z3.And(z3.Or(rr(l, t), sel(r_get(IMSG, "add", sel(m_val(MM, c), l)), t)), z3.Not(sel(r_get(IMSG, "remove", sel(m_val(MM, c), l)), t))), rr(l, t)), [[now(l, t)], [rr(l, t)]])))
    return out
  return hint

def contract_request(itp, w, log=None):
  """contract of request_in_topics_change, proved above"""
  def model(itp_, args, kw):
    A, R = term_set(itp, args[1], INT), term_set(itp, args[2], INT)
    if log: log(A, R)
    d = Dem(itp, w)
    r0 = itp.fld_arr(LINK, "recv_topics")
    r1 = itp.fresh_const("recv_topics", r0.sort())
    asks, b = itp.fresh_fn("asks", sort(L), z3.IntSort(), z3.BoolSort()), itp.fresh_fn("cheapest", z3.IntSort(), sort(L))
    t, l = z3.Int("t!rq"), z3.Const("l!rq", sort(L))
    before, after = sel(sel(r0, l), t), sel(sel(r1, l), t)
    itp.assume(M.mk_forall([t, l], after == z3.If(z3.And(d.link(l), z3.Not(d.closed(l))), z3.And(z3.Or(before, asks(l, t)), z3.Not(z3.And(sel(R, t), before))), before), [[after], [before]]))
    itp.assume(M.mk_forall([t, l], z3.Implies(asks(l, t), z3.And(sel(A, t), d.link(l), l == b(t), offers(d.price(l), t, d.v().best(t)))), [[asks(l, t)]]))
    itp.assume(M.mk_forall([t], z3.Implies(z3.And(sel(A, t), d.v().known(t)), asks(b(t), t)), [[sel(A, t)], [d.v().known(t)]]))
    itp.st.farr[(LINK, "recv_topics")] = r1
    itp.st.ghost["cands"] = itp.st.ghost["cands"] + (lambda t, b=b: b(t),)
  return model

def demand_setup(itp):
  sw_setup(itp)
  w = new_switch(itp)
  d = Dem(itp, w)
  own, prov, fall = (itp.fresh_fn(n, z3.IntSort(), sort(L)) for n in ("owner", "provider", "closing"))
  itp.assume(d.v().inv())
  itp.assume(cinv(counts_now(itp, itp.getattr(w.o, "in_topics"))))
  itp.st.ghost["cands"] = (lambda t: prov(t), lambda t: fall(t), lambda t: own(t))
  return w, d, own, prov, fall

def s_wants(itp):
  """a subscription change arrives: demand is counted, newly wanted topics are asked for, unwanted ones withdrawn"""
  w, d, own, prov, fall = demand_setup(itp)
  l = fresh_link(itp, "origin")
  itp.assume(is_link(w, l))
  itp.rec_types[MSG + ":TopicControlMessage"] = REC(MSG + ":TopicControlMessage", topic=INT, paused=BOOL)
  only_closing(itp, d, fresh_link(itp, "closing"))
  for f in inv_routes(itp, d, own) + inv_demand(itp, d, prov, fall): itp.assume(f)
  in0 = itp.fld_get(LINK, "in_topics", l)
  in1 = itp.fresh_const("now", sort(IDS))
  A, a = new_set(itp, "add", INT); R, r = new_set(itp, "remove", INT)
  x = z3.Int("x!wn")
  # contract of Link._process_recv_message (P02): exactly the change of the record is handed on
  itp.assume(M.mk_forall([x], z3.And(sel(A, x) == z3.And(sel(in1, x), z3.Not(sel(in0, x))), sel(R, x) == z3.And(sel(in0, x), z3.Not(sel(in1, x)))), [[sel(A, x)], [sel(R, x)], [sel(in0, x)], [sel(in1, x)]]))
  itp.fld_set(LINK, "in_topics", l, in1)
  m0 = counts_now(itp, itp.getattr(w.o, "in_topics"))
  itp.assume(M.mk_forall([x], z3.Implies(sel(in0, x), ccount(m0, x) >= 1), [[sel(in0, x)]])) # the old record is counted
  idtracker_models(itp)
  def log(A_, R_):
    x = itp.fresh_const("x", z3.IntSort())
    m1 = counts_now(itp, itp.getattr(w.o, "in_topics"))
    itp.check("demand: what a link wants is counted exactly, before anything is asked", ccount(m1, x) - ccount(m0, x) == one(sel(in1, x)) - one(sel(in0, x)))
    itp.check("demand: asked for exactly when the first link starts wanting it", sel(A_, x) == z3.And(ccount(m0, x) == 0, ccount(m1, x) >= 1))
    itp.check("demand: withdrawn exactly when the last link stops wanting it", sel(R_, x) == z3.And(ccount(m0, x) >= 1, ccount(m1, x) == 0))
    itp.st.ghost["asked"] = itp.st.ghost["asked"] + 1
  itp.st.ghost["asked"] = 0
  itp.models[SW + ".request_in_topics_change"] = contract_request(itp, w, log)
  itp.models[SW + ".send_to"] = lambda *a: None
  run(itp, w.o, "handle_message", [itp.call(mcls(itp, "InTopicsChangedMessage"), [a, r]), Sym(l, L)])
  itp.check("demand: requests follow, once", itp.st.ghost["asked"] == 1)
  check_demand(itp, d, "demand")

def s_offer(itp):
  """route changes of topics arrive: every wanted topic ends up at a cheapest provider"""
  w, d, own, prov, fall = demand_setup(itp)
  l = fresh_link(itp, "origin")
  itp.assume(is_link(w, l))
  for f in inv_routes(itp, d, own) + inv_demand(itp, d, prov, fall): itp.assume(f)
  only_closing(itp, d, None)
  t0 = itp.fld_get(LINK, "out_topics", l)
  t1 = itp.fresh_const("now", sort(PRICES))
  A, a = new_set(itp, "add", PID); R, r = new_set(itp, "remove", PID)
  i, c = z3.Int("i!of"), z3.Int("c!of")
  itp.assume(M.mk_forall([i, c], z3.Implies(sel(R, p(i, c)), offers(t0, i, c)), [[sel(R, p(i, c))]]))
  itp.assume(M.mk_forall([i, c], z3.Implies(sel(A, p(i, c)), offers(t1, i, c)), [[sel(A, p(i, c))]]))
  itp.assume(M.mk_forall([i], z3.Or(sel(A, p(i, val(t1, i))), sel(R, p(i, val(t0, i))), same_map(t1, t0, i)), [[dom(t1, i)], [dom(t0, i)]]))
  n1 = lambda i: z3.And(dom(t1, i), sel(A, p(i, val(t1, i)))); n0 = lambda i: z3.And(dom(t0, i), sel(R, p(i, val(t0, i))))
  itp.fld_set(LINK, "out_topics", l, t1)
  own1 = itp.fresh_fn("owner", z3.IntSort(), sort(L))
  def change(itp_, args, kw):
    o = args[0]
    v0 = d.v()
    T.fresh_tracker(itp, o)
    v1 = d.v()
    itp.assume(v1.inv())
    for f in inv_routes(itp, d, own1): itp.assume(f)     # the invariant kept by change_many (P04's scenarios, for topics below)
    same = lambda x: z3.And(v0.known(x) == v1.known(x), z3.Implies(v0.known(x), v0.best(x) == v1.best(x)))
    lemma(itp, "topics the announcement does not change keep their best price", [NUM], lambda x: z3.Implies(same_map(t1, t0, x), same(x)), lambda x: [[v0.known(x)], [v1.known(x)], [v0.best(x)], [v1.best(x)]])
    return (new_set(itp, "changed", PID)[1], new_set(itp, "gone", INT)[1])
  itp.models[PT + ".change_many"] = change
  itp.models[SW + ".send_to"] = lambda *a: None
  def log(A_, R_):
    itp.st.ghost["resub"] = A_
    x = itp.fresh_const("x", z3.IntSort())
    settled = lambda t: z3.And(d.link(prov(t)), d.recv(prov(t), t), dom(d.price(prov(t)), t), val(d.price(prov(t)), t) <= d.v().best(t))
    lemma(itp, "topics of the announcement that are not asked again are asked from a cheapest provider", [NUM], lambda x: z3.Implies(z3.And(z3.Not(sel(A_, x)), z3.Not(same_map(t1, t0, x)), d.wanted(x), d.v().known(x)), settled(x)), lambda x: [[sel(A_, x)], [d.wanted(x)]])
    itp.check("offers: only topics of the announcement are asked elsewhere", z3.Implies(z3.Or(sel(A_, x), sel(R_, x)), z3.Or(n1(x), n0(x), z3.Exists([c], z3.Or(sel(A, p(x, c)), sel(R, p(x, c)))))))
  itp.models[SW + ".request_in_topics_change"] = contract_request(itp, w, log)
  def hint(lc):
    if lc.seg is None or lc.seg.bty is not INT: return []
    out = []
    q = z3.Int("t!rs")
    for key, ty in lc.local_keys(lambda t: t is IDS):
      cur = lambda key=key: lc.term(key)
      settled = lambda t: z3.And(d.link(prov(t)), d.recv(prov(t), t), dom(d.price(prov(t)), t), val(d.price(prov(t)), t) <= d.v().best(t))
      out.append((f"unsettled topics so far {key}", lambda D, cur=cur: M.mk_forall([q], sel(cur(), q) == z3.And(D(q), d.wanted(q), d.v().known(q), z3.Not(settled(q))), [[sel(cur(), q)], [d.wanted(q)]] + ([[D(q)]] if lc.dpat(q) else []))))
    return out
  itp.loop_hints.append(hint)
  run(itp, w.o, "handle_message", [itp.call(mcls(itp, "OutTopicsChangedRecvMessage"), [a, r]), Sym(l, L)])
  itp.st.ghost["cands"] += (lambda t: l,)
  check_demand(itp, d, "offers", [lambda t: sel(itp.st.ghost["resub"], t), lambda t: z3.And(z3.Not(sel(itp.st.ghost["resub"], t)), same_map(t1, t0, t)), lambda t: z3.And(z3.Not(sel(itp.st.ghost["resub"], t)), z3.Not(same_map(t1, t0, t)))])

def s_gone(itp):
  """a link is removed: what it wanted is no longer wanted, what was asked from it is asked elsewhere"""
  w, d, own, prov, fall = demand_setup(itp)
  l = fresh_link(itp, "lost")
  itp.assume(is_link(w, l))
  for f in inv_routes(itp, d, own) + inv_demand(itp, d, prov, fall): itp.assume(f)
  only_closing(itp, d, l)
  in0, t0 = itp.fld_get(LINK, "in_topics", l), itp.fld_get(LINK, "out_topics", l)
  m0 = counts_now(itp, itp.getattr(w.o, "in_topics"))
  x = z3.Int("x!gn")
  itp.assume(M.mk_forall([x], z3.Implies(sel(in0, x), ccount(m0, x) >= 1), [[sel(in0, x)]]))
  v0 = d.v()
  own1 = itp.fresh_fn("owner", z3.IntSort(), sort(L))
  def remove(itp_, args, kw):
    o = args[0]
    r = T.contract_remove(itp, o)(itp_, args, kw) if o.addr == itp.getattr(w.o, "out_topics").addr else (new_set(itp, "r", INT)[1], new_set(itp, "u", PID)[1])
    return r
  itp.models[PT + ".remove_many"] = remove
  idtracker_models(itp)
  itp.models[SW + ".broadcast"] = lambda *a: None
  itp.ext_models["asyncio.current_task"] = lambda itp_, a, k: itp.fresh("me", TASK)
  itp.any_methods[("task", "cancel")] = lambda *a: None
  # cardinality: after l has left, a topic still counted is offered by a remaining link (P04's lemma)
  def log(A_, R_):
    for f in inv_routes(itp, d, own1): itp.assume(f)
    itp.st.ghost["asked"] = itp.st.ghost["asked"] + 1
    m1 = counts_now(itp, itp.getattr(w.o, "in_topics"))
    x = itp.fresh_const("x", z3.IntSort())
    lemma(itp, "asked elsewhere only what is asked from no other link", [NUM, sort(L)], lambda x, k: z3.Implies(z3.And(sel(A_, x), d.link(k)), z3.Not(d.recv(k, x))), lambda x, k: [[sel(A_, x), d.recv(k, x)]])
    lemma(itp, "topics the lost link did not offer keep their best price", [NUM], lambda x: z3.Implies(z3.Not(dom(t0, x)), z3.And(v0.known(x) == d.v().known(x), z3.Implies(v0.known(x), v0.best(x) == d.v().best(x)))), lambda x: [[v0.known(x)], [d.v().known(x)], [d.v().best(x)]])
    lemma(itp, "what was asked from the lost link is asked elsewhere", [NUM], lambda x: z3.Implies(z3.And(z3.Or(dom(t0, x), d.recv(l, x)), d.wanted(x), d.v().known(x)), z3.Or(sel(A_, x), z3.And(d.link(prov(x)), d.recv(prov(x), x)))), lambda x: [[sel(A_, x)], [d.wanted(x)]])
    itp.check("lost link: what it wanted is no longer counted, before anything is asked", ccount(m1, x) - ccount(m0, x) == -one(sel(in0, x)))
    itp.check("lost link: withdrawn exactly when it was the last to want it", sel(R_, x) == z3.And(ccount(m0, x) >= 1, ccount(m1, x) == 0))
  itp.st.ghost["asked"] = 0
  itp.models[SW + ".request_in_topics_change"] = contract_request(itp, w, log)
  run(itp, w.o, "remove_link", [Sym(l, L)])
  m1 = counts_now(itp, itp.getattr(w.o, "in_topics"))
  x = itp.fresh_const("x", z3.IntSort())
  itp.check("lost link: what it wanted is no longer counted", ccount(m1, x) - ccount(m0, x) == -one(sel(in0, x)))
  if not itp.st.ghost["asked"]:
    for f in inv_routes(itp, d, own1): itp.assume(f)
  check_demand(itp, d, "lost link")

SCENARIOS = [
  Scn("IdTracker.add_many", s_ids("add"), [IT + ".add_many", IT + ".__contains__"]),
  Scn("IdTracker.remove_many", s_ids("remove"), [IT + ".remove_many"]),
  Scn("subscriptions are requested", s_request, [SW + ".request_in_topics_change"]),
  Scn("a subscription change arrives", s_wants, [SW + ".handle_message", SW + ".on_in_topics_changed"]),
  Scn("topic routes change", s_offer, [SW + ".on_out_topics_changed"]),
  Scn("a link is lost: demand", s_gone, [SW + ".remove_link"]),
  Scn("a topic announcement arrives", s_announce("out_topics"), [SW + ".on_out_topics_changed", SW + ".send_to"]),
  Scn("a link is lost: routes", s_lost, [SW + ".remove_link", LM + ".remove_link"]),
  Scn("a link joins", s_new, [SW + ".add_link", LM + ".accept_link"]),
]
ASSUMPTIONS = ["handlers of different links do not overlap inside request_in_topics_change (a transport that suspends a subscription message lets them: known finding)", "prices are not negative",
  "a joining link has neither wants, offers nor requests recorded when add_link starts; links that close while their own route announcement is handled are not claimed",
  "a switch's table of a topic is the cheapest of its links' offers: the lemma of P04 over the counts proved in the announcement, join and removal scenarios",
  "Link.send and Link._process_recv_message by their contracts of P02; PricedIdTracker by its contracts of P01"]
TRUSTED = ["cardinality of finite sets of links (update at one point)"]
