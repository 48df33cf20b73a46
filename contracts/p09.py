"""P09: a client announces a topic only on first use and last release, and hands received messages to every active receiver."""
from contracts.net import *
from contracts.p02 import any_message
from contracts import p05
from contracts.p05 import s_ids, COUNTS, cinv, ccount

CL = "streamtasks.client:Client"
IT = "streamtasks.utils:IdTracker"
RCV = REF("streamtasks.client.receiver:Receiver")
RL = LIST(RCV)
TASK = ANY("task")
one = lambda b: z3.If(b, 1, 0)

def client(itp):
  setup(itp)
  s = type("C", (), {})()
  s.m = {}
  f = {}
  for n in ("_in_topics", "_out_topics"):
    s.m[n] = itp.fresh_const(n, sort(COUNTS))
    itp.assume(cinv(s.m[n]))
    f[n] = itp.new_obj(itp.cls_by_qual(IT), {"_map": itp.new_cont("map", COUNTS, s.m[n])})
  s.recv = itp.fresh_const("receivers", sort(RL))
  itp.assume(l_len(RL, s.recv) >= 0)
  s.link = itp.fresh("link", ANY("link"))
  s.sent = itp.st.ghost["sent"] = ()
  itp.ref_fields[(RCV.args[0], "got")] = INT
  f.update(_link=s.link, _receivers=itp.new_cont("list", RL, s.recv), _receive_task=None, _address=itp.fresh("address", OPT(INT)), _started_event=itp.fresh("started", ANY("event")),
    _subscribed_provided_topics=itp.fresh("provided", ANY("tracker")))
  s.o = itp.new_obj(itp.cls_by_qual(CL), f)
  def send(itp_, self, a, k): return CoroV(lambda: sent(itp, a[0]))
  def sent(itp, m):
    itp.st.ghost["sent"] = itp.st.ghost["sent"] + (itp.deref(m),)
    itp.yield_point("send")
  itp.any_methods[("link", "send")] = send
  itp.any_methods[("tracker", "change_many")] = lambda *a: None
  def unique(R):
    idx = itp.fresh_fn("pos", sort(RCV), z3.IntSort()); i = z3.Int("i!un")
    itp.assume(M.mk_forall([i], z3.Implies(z3.And(i >= 0, i < l_len(RL, R)), idx(sel(l_arr(RL, R), i)) == i), [[sel(l_arr(RL, R), i)]]))
    return lambda r: z3.And(idx(r) >= 0, idx(r) < l_len(RL, R), sel(l_arr(RL, R), idx(r)) == r), idx
  s.unique = unique
  return s
def counts(itp, s, n): return itp.to_term(itp.getattr(itp.getattr(s.o, n), "_map"), COUNTS)

def contract_ids(itp, s):
  """IdTracker's contract (first scenarios): counts each id once, reports exactly the ids whose use begins or ends"""
  def model(op):
    def m(itp_, a, k):
      o = a[0]
      m0 = itp.to_term(itp.getattr(o, "_map"), COUNTS)
      itp.check(f"call of {op}_many: the tracker's invariant holds", cinv(m0))
      ty, S = M.as_set(itp, a[1], INT)
      if S is None: S = empty_set(INT)
      force = op == "remove" and itp.truth(a[2] if len(a) > 2 else k.get("force", False))
      m1, R = itp.fresh_const("counts", sort(COUNTS)), itp.fresh_const("crossing", sort(IDS))
      i = z3.Int("i!ct")
      itp.assume(cinv(m1))
      new = ccount(m0, i) + one(sel(S, i)) if op == "add" else z3.If(sel(S, i), z3.IntVal(0) if force else z3.If(ccount(m0, i) > 0, ccount(m0, i) - 1, z3.IntVal(0)), ccount(m0, i))
      itp.assume(M.mk_forall([i], ccount(m1, i) == new, [[sel(m_dom(COUNTS, m1), i)], [sel(m_val(COUNTS, m1), i)]]))
      itp.assume(M.mk_forall([i], sel(R, i) == (sel(m_dom(COUNTS, m1), i) != sel(m_dom(COUNTS, m0), i)), [[sel(R, i)]]))
      itp.setattr(o, "_map", itp.new_cont("map", COUNTS, m1))
      return itp.new_cont("set", IDS, R)
    return m
  itp.models[IT + ".add_many"] = model("add")
  itp.models[IT + ".remove_many"] = model("remove")

def s_register(op, way, force=False):
  kind = "InTopicsChangedMessage" if way == "in" else "OutTopicsChangedMessage"
  f = f"_{way}_topics"; other = "_out_topics" if way == "in" else "_in_topics"
  name = f"{op}_{way}_topics" + (" (force)" if force else "")
  def s(itp):
    c = client(itp)
    contract_ids(itp, c)
    S, ids = new_set(itp, "ids", INT)
    m0 = counts(itp, c, f)
    st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(c.o, f"{op}_{way}_topics"), [ids], {"force": True} if force else {})))
    itp.check(f"{name}: never fails by itself", st == "ok")
    m1 = counts(itp, c, f)
    x = itp.fresh_const("x", z3.IntSort())
    had, has = ccount(m0, x) > 0, ccount(m1, x) > 0
    if op == "register": itp.check(f"{name}: every given topic has one user more", ccount(m1, x) == ccount(m0, x) + one(sel(S, x)))
    elif force: itp.check(f"{name}: the given topics have no user", ccount(m1, x) == z3.If(sel(S, x), z3.IntVal(0), ccount(m0, x)))
    else: itp.check(f"{name}: every given topic has one user less", ccount(m1, x) == z3.If(z3.And(sel(S, x), had), ccount(m0, x) - 1, ccount(m0, x)))
    itp.check(f"{name}: the users of the other direction are untouched", counts(itp, c, other) == c.m[other])
    sent = itp.st.ghost["sent"]
    itp.check(f"{name}: at most one announcement", len(sent) <= 1)
    A = R = empty_set(INT)
    for m in sent:
      itp.check(f"{name}: announces its own kind", is_msg(itp, m, kind))
      if not is_msg(itp, m, kind): continue
      R = field_set(itp, m, "remove", INT)
      if way == "in": A = field_set(itp, m, "add", INT)
      else:
        P = field_set(itp, m, "add", PID)
        q = itp.fresh_const("q", sort(PID))
        itp.check(f"{name}: announced at no cost", z3.Implies(sel(P, q), pcost(q) == 0))
        itp.check(f"{name}: announces exactly the topics whose use began", sel(P, p(x, 0)) == z3.And(has, z3.Not(had)))
        A = None
    if A is not None and not (way == "out" and sent): itp.check(f"{name}: announces exactly the topics whose use began", sel(A, x) == z3.And(has, z3.Not(had)))
    itp.check(f"{name}: withdraws exactly the topics whose use ended", sel(R, x) == z3.And(had, z3.Not(has)))
    if sent: 
      m = sent[0]
      if is_msg(itp, m, kind):
        y = z3.Int("y!ne")
        itp.check(f"{name}: announces only when something changed", z3.Exists([y], (ccount(m0, y) > 0) != (ccount(m1, y) > 0)))
  return s

def s_address(itp):
  c = client(itp)
  a0, a1 = itp.getattr(c.o, "_address"), itp.fresh("new", OPT(INT))
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(c.o, "set_address"), [a1])))
  itp.check("set_address: never fails by itself", st == "ok")
  itp.check("set_address: the address is the given one", itp.bz(itp.eq(itp.getattr(c.o, "address"), a1)))
  sent = itp.st.ghost["sent"]
  itp.check("set_address: at most one announcement", len(sent) <= 1)
  x = itp.fresh_const("x", z3.IntSort())
  is0, is1 = itp.bz(itp.eq(a0, Sym(x, INT))), itp.bz(itp.eq(a1, Sym(x, INT)))
  if not sent: itp.check("set_address: nothing announced only if nothing changes", is0 == is1); return
  m = sent[0]
  itp.check("set_address: announces addresses", is_msg(itp, m, "AddressesChangedMessage"))
  if not is_msg(itp, m, "AddressesChangedMessage"): return
  A = field_set(itp, m, "add", PID)
  q = itp.fresh_const("q", sort(PID))
  rem = itp.deref(itp.getattr(m, "remove"))
  rt = itp.type_of(rem)
  R = (lambda x: z3.BoolVal(False)) if rt is None else (lambda x: sel(itp.to_term(rem, rt), itp.to_term(Sym(x, INT), rt.args[0])))
  itp.check("set_address: announces exactly the new address, at no cost", sel(A, q) == z3.And(z3.substitute(z3.And(is1, z3.Not(is0)), (x, pid(q))), pcost(q) == 0))
  itp.check("set_address: withdraws exactly the old address", R(x) == z3.And(is0, z3.Not(is1)))

KINDS = ["TopicDataMessage", "TopicControlMessage", "AddressedMessage", "InTopicsChangedMessage"]
def s_dispatch(kind):
  def s(itp):
    c = client(itp)
    msg = any_message(itp, kind)
    itp.setattr(c.o, "_receive_task", itp.fresh("me", TASK))
    g = itp.st.ghost
    g["phase"] = 0
    def havoc(itp):
      """while the task waits others register, release, enable and disable"""
      m = itp.fresh_const("wanted", sort(COUNTS)); itp.assume(cinv(m))
      itp.setattr(itp.getattr(c.o, "_in_topics"), "_map", itp.new_cont("map", COUNTS, m))
      R = itp.fresh_const("receivers", sort(RL)); itp.assume(l_len(RL, R) >= 0)
      itp.setattr(c.o, "_receivers", itp.new_cont("list", RL, R))
      itp.st.ghost["mem"] = c.unique(R)
    itp.any_methods[("event", "wait")] = lambda itp, s, a, k: CoroV(lambda: havoc(itp))
    def recv(itp):
      itp.check("receiving: one message at a time", itp.st.ghost["phase"] == 0)
      itp.st.ghost["phase"] = 1
      havoc(itp)
      return msg
    itp.any_methods[("link", "recv")] = lambda itp, s, a, k: CoroV(lambda: recv(itp))
    RC = RCV.args[0]
    def on_message(itp_, a, k):
      r = itp.to_term(a[0], RCV)
      itp.check(f"{kind}: the message itself is handed on", itp.bz(itp.conj([itp.eq(a[1], msg)])) if not isinstance(itp.deref(a[1]), ObjRef) else itp.deref(a[1]).addr == msg.addr)
      itp.fld_set(RC, "got", r, itp.fld_get(RC, "got", r) + 1)
    itp.models[RC + ".on_message"] = on_message
    g0 = itp.fld_arr(RC, "got")
    def now(): return itp.to_term(itp.getattr(c.o, "_receivers"), RL)
    class Rule:
      @staticmethod
      def after(itp):
        if itp.st.ghost["phase"] == 0: return
        r = itp.fresh_const("r", sort(RCV))
        mem, idx = itp.st.ghost["mem"]
        wanted = z3.BoolVal(True)
        if kind.startswith("Topic"): wanted = ccount(counts(itp, c, "_in_topics"), itp.to_term(itp.getattr(msg, "topic"), INT)) > 0
        itp.check(f"{kind}: every active receiver gets it exactly once if it concerns the client, none otherwise", itp.fld_get(RC, "got", r) == sel(g0, r) + z3.If(z3.And(wanted, mem(r)), 1, 0))
        itp.check(f"{kind}: reception goes on", itp.getattr(c.o, "_receive_task") is not None)
    itp.event_rule = Rule
    def hint(lc):
      if lc.seg is None or lc.seg.kind == "set": return []
      mem, idx = itp.st.ghost["mem"]
      r = z3.Const("r!hd", sort(RCV))
      gp = lc.in_pre(lambda: itp.fld_arr(RC, "got"))
      return [("handed so far", lambda D: M.mk_forall([r], sel(itp.fld_arr(RC, "got"), r) == sel(gp, r) + z3.If(z3.And(mem(r), D(idx(r))), 1, 0), [[sel(itp.fld_arr(RC, "got"), r)], [sel(gp, r)]]))]
    itp.loop_hints.append(hint)
    st, v = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(c.o, "_task_receive"), [])))
    # the loop was left: only when no receiver is active any more
    itp.check(f"{kind}: reception ends only without receivers", z3.BoolVal(st == "ok") if st != "ok" else l_len(RL, now()) == 0)
    itp.check(f"{kind}: afterwards no reception is running", itp.getattr(c.o, "_receive_task") is None)
  return s

def s_enable(itp):
  """while a receiver is active, reception runs"""
  c = client(itp)
  running = itp.choose(2) == 1
  if running: itp.setattr(c.o, "_receive_task", itp.fresh("task", TASK))
  else: itp.assume(l_len(RL, c.recv) == 0)
  tasks(itp, c)
  r = itp.fresh("receiver", RCV)
  st, v = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(c.o, "enable_receiver"), [r])))
  R1 = itp.to_term(itp.getattr(c.o, "_receivers"), RL)
  n, i = l_len(RL, c.recv), itp.fresh_const("i", z3.IntSort())
  itp.check("enable: never fails", st == "ok")
  itp.check("enable: the receiver is active", z3.And(l_len(RL, R1) == n + 1, sel(l_arr(RL, R1), n) == r.t))
  itp.check("enable: the other receivers stay", z3.Implies(z3.And(i >= 0, i < n), sel(l_arr(RL, R1), i) == sel(l_arr(RL, c.recv), i)))
  itp.check("enable: reception runs", itp.getattr(c.o, "_receive_task") is not None)
  itp.check("enable: never a second reception", itp.st.ghost["started"] == (0 if running else 1))

def tasks(itp, c):
  g = itp.st.ghost
  g["started"] = 0; g["cancelled"] = False
  def create(itp_, a, k):
    itp.st.ghost["started"] = itp.st.ghost["started"] + 1
    return itp.fresh("task", TASK)
  itp.ext_models["asyncio.create_task"] = create
  def cancel(itp_, s, a, k): itp.st.ghost["cancelled"] = True
  itp.any_methods[("task", "cancel")] = cancel
  def ended(itp_, s, a, k):
    # the reception ends (its last act: no reception is running); meanwhile others enable and disable receivers
    if not itp.st.ghost["cancelled"]: raise Unsupported("waits for a reception that was not cancelled")
    R = itp.fresh_const("receivers", sort(RL)); itp.assume(l_len(RL, R) >= 0)
    itp.setattr(c.o, "_receivers", itp.new_cont("list", RL, R))
    itp.setattr(c.o, "_receive_task", None)
    if itp.choose(2): itp.raise_py(asyncio.CancelledError)
  itp.any_methods[("task", "__await__")] = ended
import asyncio

def s_disable(itp):
  c = client(itp)
  itp.setattr(c.o, "_receive_task", itp.fresh("task", TASK))
  tasks(itp, c)
  r = itp.fresh("receiver", RCV)
  mem, idx = c.unique(c.recv)
  itp.assume(mem(r.t))
  st, v = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(c.o, "disable_receiver"), [r])))
  itp.check("disable: never fails", st == "ok")
  if not itp.st.ghost["cancelled"]:
    R1 = itp.to_term(itp.getattr(c.o, "_receivers"), RL)
    m1, _ = c.unique(R1)
    q = itp.fresh_const("q", sort(RCV)); i = itp.fresh_const("i", z3.IntSort())
    itp.check("disable: one receiver less", l_len(RL, R1) == l_len(RL, c.recv) - 1)
    itp.check("disable: exactly that receiver is gone", z3.Implies(z3.And(i >= 0, i < l_len(RL, R1)), z3.And(sel(l_arr(RL, R1), i) != r.t, mem(sel(l_arr(RL, R1), i)))))
    itp.check("disable: reception is kept for the others", z3.And(l_len(RL, R1) > 0))
    itp.check("disable: reception is kept for the others (task)", itp.getattr(c.o, "_receive_task") is not None)
  else:
    R1 = itp.to_term(itp.getattr(c.o, "_receivers"), RL)
    itp.check("disable: the reception is ended only for the last receiver", l_len(RL, c.recv) == 1)
    itp.check("disable: receivers enabled meanwhile are served", z3.Implies(l_len(RL, R1) > 0, itp.getattr(c.o, "_receive_task") is not None))

SCENARIOS = [Scn("IdTracker.add_many", s_ids("add"), [IT + ".add_many"]), Scn("IdTracker.remove_many", s_ids("remove"), [IT + ".remove_many"])] + \
  [Scn(f"Client.{op}_{w}_topics" + (" (force)" if f else ""), s_register(op, w, f), [f"{CL}.{op}_{w}_topics"]) for op, w, f in [("register", "in", 0), ("register", "out", 0), ("unregister", "in", 0), ("unregister", "out", 0), ("unregister", "in", 1), ("unregister", "out", 1)]] + \
  [Scn("Client.set_address", s_address, [CL + ".set_address", CL + ".address"]), Scn("Client.enable_receiver", s_enable, [CL + ".enable_receiver"]), Scn("Client.disable_receiver", s_disable, [CL + ".disable_receiver"])] + \
  [Scn(f"Client._task_receive {k}", s_dispatch(k), [CL + "._task_receive"]) for k in KINDS]
ASSUMPTIONS = ["the given topics are sets (a topic repeated in one call is covered by the bounded oracle)", "set_address is not called again before the previous call returned",
  "an active receiver is enabled once (Receiver.start_recv counts its users)", "Link.send by its contract of P02"]
