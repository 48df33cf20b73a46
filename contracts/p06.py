"""P06: a remapping link translates topic ids out by the mapping and in by its inverse, and touches nothing else."""
from contracts.net import *
from contracts.p02 import any_message, same_fields

RL = NET + ":TopicRemappingLink"
IDMAP = MAP(INT, INT)
OUT_KINDS = ["TopicDataMessage", "TopicControlMessage", "AddressedMessage", "InTopicsChangedMessage", "OutTopicsChangedMessage", "AddressesChangedMessage"]
IN_KINDS = ["TopicDataMessage", "TopicControlMessage", "AddressedMessage", "InTopicsChangedMessage", "OutTopicsChangedRecvMessage", "AddressesChangedRecvMessage"]
SETF = {"InTopicsChangedMessage": ("add", "remove"), "OutTopicsChangedMessage": ("add", "remove"), "OutTopicsChangedRecvMessage": ("add", "remove")}

def fwd(m, x): return z3.If(sel(m_dom(IDMAP, m), x), sel(m_val(IDMAP, m), x), x)

def new_remap(itp):
  setup(itp)
  m = itp.fresh_const("mapping", sort(IDMAP))
  i, j = z3.Int("i!mp"), z3.Int("j!mp")
  d = lambda x: sel(m_dom(IDMAP, m), x); v = lambda x: sel(m_val(IDMAP, m), x)
  itp.assume(M.mk_forall([i, j], z3.Implies(z3.And(d(i), d(j), v(i) == v(j)), i == j), [[d(i), d(j)]]))   # one-to-one
  inner = itp.new_obj(itp.cls_by_qual(NET + ":QueueLink"), {"on_closed": itp.new_list([]), "_closed": False})
  o = itp.call(itp.cls_by_qual(RL), [inner, itp.new_cont("map", IDMAP, m)])
  return o, inner, m

def inverse(itp, m):
  """the inverse mapping: bwd(y) = the x mapped to y, y itself if there is none"""
  bwd, x, y = itp.fresh_fn("inverse", z3.IntSort(), z3.IntSort()), z3.Int("x!iv"), z3.Int("y!iv")
  d = lambda x: sel(m_dom(IDMAP, m), x); v = lambda x: sel(m_val(IDMAP, m), x)
  itp.assume(M.mk_forall([x], z3.Implies(d(x), bwd(v(x)) == x), [[d(x)], [v(x)]]))
  itp.assume(M.mk_forall([y], z3.Or(z3.And(d(bwd(y)), v(bwd(y)) == y), bwd(y) == y), [[bwd(y)]]))
  itp.assume(M.mk_forall([y], z3.Implies(z3.And(bwd(y) == y, d(y)), v(y) == y), [[bwd(y)]]))
  return bwd

def check_translated(itp, what, kind, msg, got, f):
  """got is msg with every topic id x replaced by f(x)"""
  ok = isinstance(got, ObjRef) and itp.st.cells[got.addr].cls is itp.st.cells[msg.addr].cls
  itp.check(f"{what} {kind}: the kind of message stays the same", ok)
  if not ok: return
  if kind in ("TopicDataMessage", "TopicControlMessage"):
    a, b = itp.to_term(itp.getattr(msg, "topic"), INT), itp.to_term(itp.getattr(got, "topic"), INT)
    itp.check(f"{what} {kind}: the topic is translated", b == f(a))
    n = "data" if kind == "TopicDataMessage" else "paused"
    itp.check(f"{what} {kind}: the content is untouched", itp.bz(itp.eq(itp.getattr(msg, n), itp.getattr(got, n))))
  elif kind in SETF:
    el = lambda n: INT if kind == "InTopicsChangedMessage" or (kind == "OutTopicsChangedMessage" and n == "remove") else PID
    for n in SETF[kind]:
      e = el(n)
      S, G = field_set(itp, msg, n, e), field_set(itp, got, n, e)
      x = itp.fresh_const("x", sort(e))
      fx = f(x) if e is INT else p(f(pid(x)), pcost(x))
      itp.check(f"{what} {kind}: every id is translated in {n}, its price untouched", z3.Implies(sel(S, x), sel(G, fx)))
      y = z3.Const("y!tr", sort(e))
      fy = f(y) if e is INT else p(f(pid(y)), pcost(y))
      itp.check(f"{what} {kind}: nothing else appears in {n}", z3.Implies(sel(G, x), z3.Exists([y], z3.And(sel(S, y), fy == x))))
  else: itp.check(f"{what} {kind}: passes unchanged", same_fields(itp, got, msg))

def s_out(kind):
  def s(itp):
    o, inner, m = new_remap(itp)
    msg = any_message(itp, kind)
    itp.st.ghost["sent"] = ()
    def send(itp_, args, kw): itp.st.ghost["sent"] = itp.st.ghost["sent"] + ((args[0], args[1]),)
    itp.models[LINK + ".send"] = send
    st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "_send"), [msg])))
    itp.check(f"outgoing {kind}: never fails", st == "ok")
    s = itp.st.ghost["sent"]
    itp.check(f"outgoing {kind}: sent once, over the inner link", len(s) == 1 and s[0][0].addr == inner.addr)
    if len(s) == 1: check_translated(itp, "outgoing", kind, msg, itp.deref(s[0][1]), lambda x: fwd(m, x))
  return s

def s_in(kind):
  def s(itp):
    o, inner, m = new_remap(itp)
    msg = any_message(itp, kind)
    itp.st.ghost["n"] = 0
    def recv(itp_, args, kw):
      itp.st.ghost["n"] = itp.st.ghost["n"] + 1
      return msg
    itp.models[LINK + ".recv"] = recv
    st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "_recv"), [])))
    itp.check(f"incoming {kind}: never fails", st == "ok")
    if st != "ok": return
    itp.check(f"incoming {kind}: one message in, one message out", itp.st.ghost["n"] == 1)
    bwd = inverse(itp, m)
    check_translated(itp, "incoming", kind, msg, itp.deref(r), bwd)
  return s

def s_lemma(itp):
  """there and back: for ids that no mapped id is translated to, and mapped ids, the inverse undoes the mapping"""
  o, inner, m = new_remap(itp)
  bwd = inverse(itp, m)
  x, y = itp.fresh_const("x", z3.IntSort()), z3.Int("y!rt")
  d = lambda x: sel(m_dom(IDMAP, m), x); v = lambda x: sel(m_val(IDMAP, m), x)
  usable = z3.Or(d(x), M.mk_forall([y], z3.Not(z3.And(d(y), v(y) == x)), [[d(y)]]))
  itp.check("there and back gives the original id", z3.Implies(usable, bwd(fwd(m, x)) == x))

SCENARIOS = [Scn(f"outgoing {k}", s_out(k), [RL + "._send", RL + "._remap_message", RL + ".__init__"]) for k in OUT_KINDS] + \
  [Scn(f"incoming {k}", s_in(k), [RL + "._recv", RL + "._remap_message", RL + ".__init__"]) for k in IN_KINDS] + [Scn("there and back", s_lemma, [])]
ASSUMPTIONS = ["the mapping is one-to-one, and ids outside the mapping are not the translation of a mapped id (as for the fresh ids of a topic space)",
  "the remapping link is the client end of a connection (its inner link has already turned route announcements into OutTopicsChangedRecvMessage)", "Link.send/recv of the inner link by their contracts of P02"]
