"""P02: a link's view equals the announcements that crossed it."""
from contracts.net import *
import asyncio

def price_hints(itp):
  def hint(lc):
    if lc.seg is None or lc.seg.bty is not PID: return []
    out = []
    i, x = z3.Int("i!ph"), z3.Const("x!ph", sort(PID))
    for key, ty in lc.local_keys(lambda t: t is PRICES):
      m, m0 = (lambda key=key: lc.term(key)), (lambda key=key: lc.pre_term(key))
      out.append((f"recorded {key}", lambda D, m=m: M.mk_forall([x], z3.Implies(D(x), z3.And(dom(m(), pid(x)), val(m(), pid(x)) == pcost(x))), [lc.dpat(x)])))
      out.append((f"rest {key}", lambda D, m=m, m0=m0: M.mk_forall([i], z3.Or(D(p(i, val(m(), i))), z3.And(dom(m(), i) == dom(m0(), i), val(m(), i) == val(m0(), i))), [[dom(m(), i)], [val(m(), i)]])))
    return out
  return hint

def unchanged(itp, o, t0, fields, what):
  t1 = link_now(itp, o)
  i = itp.fresh_const("i", z3.IntSort())
  for f in fields:
    if f in ("in_topics", "recv_topics"): itp.check(f"{what}: {f} untouched", sel(t1[f], i) == sel(t0[f], i))
    else: itp.check(f"{what}: {f} untouched", same_map(t1[f], t0[f], i))

def process(itp, o, msg): return itp.call(itp.getattr(o, "_process_recv_message"), [msg])

def s_in(itp):
  setup(itp)
  o, t0 = new_link(itp)
  A, a = new_set(itp, "add", INT); R, r = new_set(itp, "remove", INT)
  res = process(itp, o, itp.call(mcls(itp, "InTopicsChangedMessage"), [a, r]))
  t1 = link_now(itp, o)
  x = itp.fresh_const("x", z3.IntSort())
  itp.check("in-topics: the record is the announcement applied (withdrawals win)", sel(t1["in_topics"], x) == z3.And(z3.Or(sel(t0["in_topics"], x), sel(A, x)), z3.Not(sel(R, x))))
  unchanged(itp, o, t0, ["recv_topics", "out_topics", "addresses"], "in-topics")
  if res is None:
    itp.check("in-topics: only a change that changes nothing is kept back", sel(t1["in_topics"], x) == sel(t0["in_topics"], x))
  else:
    itp.check("in-topics: handed on as a subscription change", is_msg(itp, res, "InTopicsChangedMessage"))
    ra, rr = field_set(itp, res, "add", INT), field_set(itp, res, "remove", INT)
    itp.check("in-topics: additions handed on are exactly the new ones", sel(ra, x) == z3.And(sel(t1["in_topics"], x), z3.Not(sel(t0["in_topics"], x))))
    itp.check("in-topics: withdrawals handed on are exactly the effective ones", sel(rr, x) == z3.And(sel(t0["in_topics"], x), z3.Not(sel(t1["in_topics"], x))))
    w = z3.Int("w!in")
    itp.check("in-topics: what is handed on changes something", z3.Exists([w], z3.Or(sel(ra, w), sel(rr, w))))

def announce(kind, table, recv):
  def s(itp):
    setup(itp)
    itp.loop_hints.append(price_hints(itp))
    o, t0 = new_link(itp)
    A, a = new_set(itp, "add", PID); R, r = new_set(itp, "remove", INT)
    itp.assume(functional(itp, A))
    res = process(itp, o, itp.call(mcls(itp, kind), [a, r]))
    t1 = link_now(itp, o)
    T0, T1 = t0[table], t1[table]
    i, c, d = (itp.fresh_const(n, z3.IntSort()) for n in "icd")
    ex = lambda k: z3.Exists([z3.Int("e!an")], sel(A, p(k, z3.Int("e!an"))))
    itp.check(f"{table}: an offered route is recorded at its price plus the link's cost", z3.Implies(sel(A, p(i, c)), z3.And(dom(T1, i), val(T1, i) == c + t0["cost"])))
    itp.check(f"{table}: a withdrawn id that is not offered again is forgotten", z3.Implies(z3.And(sel(R, i), z3.Not(ex(i))), z3.Not(dom(T1, i))))
    itp.check(f"{table}: every other id keeps its record", z3.Implies(z3.And(z3.Not(sel(R, i)), z3.Not(ex(i))), same_map(T1, T0, i)))
    unchanged(itp, o, t0, [f for f in ("in_topics", "recv_topics", "out_topics", "addresses") if f != table], table)
    itp.check(f"{table}: handed on as route changes", is_msg(itp, res, recv))
    ra, rr = field_set(itp, res, "add", PID), field_set(itp, res, "remove", PID)
    itp.check(f"{table}: withdrawals handed on name the price handed on before", z3.Implies(sel(rr, p(i, d)), z3.And(dom(T0, i), val(T0, i) == d)))
    itp.check(f"{table}: routes handed on are the offered ones at the link's price", z3.Implies(sel(ra, p(i, d)), z3.And(sel(A, p(i, d - t0["cost"])), dom(T1, i), val(T1, i) == d)))
    one = lambda b: z3.If(b, 1, 0)
    itp.check(f"{table}: the changes handed on turn the old record into the new one", one(sel(ra, p(i, d))) - one(sel(rr, p(i, d))) == one(z3.And(dom(T1, i), val(T1, i) == d)) - one(z3.And(dom(T0, i), val(T0, i) == d)))
  return s

def s_other(itp):
  setup(itp)
  o, t0 = new_link(itp)
  names = ["TopicDataMessage", "TopicControlMessage", "AddressedMessage", "OutTopicsChangedRecvMessage", "AddressesChangedRecvMessage"]
  n = names[itp.choose(len(names), "kind")]
  msg = any_message(itp, n)
  res = process(itp, o, msg)
  itp.check("other messages pass unchanged", isinstance(res, ObjRef) and same_fields(itp, res, msg))
  unchanged(itp, o, t0, ["in_topics", "recv_topics", "out_topics", "addresses"], "other messages")

def any_message(itp, n):
  f = {"TopicDataMessage": lambda: [itp.fresh("topic", INT), itp.fresh("data", PAY)], "TopicControlMessage": lambda: [itp.fresh("topic", INT), itp.fresh("paused", BOOL)],
    "AddressedMessage": lambda: [itp.fresh("address", INT), itp.fresh("port", INT), itp.fresh("data", PAY)],
    "OutTopicsChangedRecvMessage": lambda: [new_set(itp, "a", PID)[1], new_set(itp, "r", PID)[1]], "AddressesChangedRecvMessage": lambda: [new_set(itp, "a", PID)[1], new_set(itp, "r", PID)[1]],
    "InTopicsChangedMessage": lambda: [new_set(itp, "a", INT)[1], new_set(itp, "r", INT)[1]],
    "OutTopicsChangedMessage": lambda: [new_set(itp, "a", PID)[1], new_set(itp, "r", INT)[1]], "AddressesChangedMessage": lambda: [new_set(itp, "a", PID)[1], new_set(itp, "r", INT)[1]]}[n]()
  return itp.call(mcls(itp, n), f)
def same_fields(itp, a, b):
  """z3: equal content of two messages"""
  ca, cb = itp.st.cells[a.addr], itp.st.cells[b.addr]
  if ca.cls is not cb.cls: return z3.BoolVal(False)
  out = []
  for f, v in cb.fields.items():
    w = ca.fields.get(f)
    if isinstance(v, LocRef):
      tv = itp.to_term(v, itp.content(v).ty); el = itp.content(v).ty.args[0]
      tw = term_set(itp, w, el); k = z3.Const("k!sf", sort(el))
      out.append(M.mk_forall([k], sel(tv, k) == sel(tw, k), [[sel(tv, k)], [sel(tw, k)]]))
    else: out.append(itp.bz(itp.eq(v, w)))
  return z3.And(*out)

def s_send(itp):
  setup(itp)
  o, t0 = new_link(itp)
  names = ["TopicDataMessage", "TopicControlMessage", "AddressedMessage", "InTopicsChangedMessage", "OutTopicsChangedMessage", "AddressesChangedMessage"]
  n = names[itp.choose(len(names), "kind")]
  msg = any_message(itp, n)
  sent = []
  def raw(itp_, args, kw): itp.st.ghost["sent"] = itp.st.ghost.get("sent", ()) + (args[1],)
  itp.models[LINK + "._send"] = raw
  itp.any_methods[("payload", "__isinstance__")] = lambda *a: True
  st, v = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "send"), [msg])))
  sent = itp.st.ghost.get("sent", ())
  x = itp.fresh_const("x", z3.IntSort())
  t1 = link_now(itp, o)
  if st == "raise":
    itp.check("send: fails only on a closed link", t0["closed"])
    itp.check("send: a closed link raises ConnectionClosedError", is_ccerr(itp, v))
    itp.check("send: a closed link sends nothing", len(sent) == 0)
    unchanged(itp, o, t0, ["in_topics", "recv_topics", "out_topics", "addresses"], "send on a closed link")
    return
  itp.check("send: an open link", z3.Not(t0["closed"]))
  itp.check("send: exactly one message crosses the link", len(sent) == 1)
  itp.check("send: the message crosses unchanged", same_fields(itp, sent[0], msg) if len(sent) == 1 and isinstance(sent[0], ObjRef) else False)
  if n == "InTopicsChangedMessage":
    A, R = field_set(itp, msg, "add", INT), field_set(itp, msg, "remove", INT)
    itp.check("send: requested topics are the announcement applied (withdrawals win)", sel(t1["recv_topics"], x) == z3.And(z3.Or(sel(t0["recv_topics"], x), sel(A, x)), z3.Not(sel(R, x))))
  else: unchanged(itp, o, t0, ["recv_topics"], "send of " + n)
  unchanged(itp, o, t0, ["in_topics", "out_topics", "addresses"], "send")
def is_ccerr(itp, v):
  return isinstance(v, ObjRef) and itp.st.cells[v.addr].cls is ext_cls(itp, "ConnectionClosedError")

def s_lookup(name, table):
  def s(itp):
    setup(itp)
    o, t0 = new_link(itp)
    T = t0[table]
    i, c = itp.fresh_const("i", z3.IntSort()), itp.fresh_const("c", z3.IntSort())
    R = term_set(itp, itp.call(itp.getattr(o, name), []), PID)
    itp.check(f"{name}: exactly the recorded routes", sel(R, p(i, c)) == z3.And(dom(T, i), val(T, i) == c))
    S, s = new_set(itp, "S", INT)
    R = term_set(itp, itp.call(itp.getattr(o, name), [s]), PID)
    itp.check(f"{name}: exactly the recorded routes of the given ids", sel(R, p(i, c)) == z3.And(sel(S, i), dom(T, i), val(T, i) == c))
  return s

def s_close(itp):
  setup(itp)
  o, t0 = new_link(itp)
  HT = LIST(ANY("handler"))
  calls = z3.K(sort(ANY("handler")), z3.IntVal(0))
  itp.st.ghost["calls"] = calls
  def handler(itp_, h, args, kw):
    itp.check("close: the link counts as closed before a handler runs", itp.to_term(itp.getattr(o, "_closed"), BOOL))
    g = itp.st.ghost["calls"]
    itp.st.ghost["calls"] = z3.Store(g, h.t, z3.Select(g, h.t) + 1)
  itp.any_methods[("handler", "__call__")] = handler
  H = t0["handlers"]
  a, b = z3.Int("a!hd"), z3.Int("b!hd")
  itp.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < l_len(HT, H)), sel(l_arr(HT, H), a) != sel(l_arr(HT, H), b))))
  def hint(lc):
    if lc.seg is None: return []
    k = z3.Int("k!hd"); x = z3.Const("x!hd", sort(ANY("handler")))
    g = lambda: itp.st.ghost["calls"]
    return [("handled so far", lambda D: M.mk_forall([k], z3.Implies(z3.And(0 <= k, k < l_len(HT, H)), sel(g(), sel(l_arr(HT, H), k)) == z3.If(k < lc.index, 1, 0)), [[sel(l_arr(HT, H), k)]]))]
  itp.loop_hints.append(hint)
  itp.call(itp.getattr(o, "close"), [])
  itp.check("close: the link is closed", itp.to_term(itp.getattr(o, "closed"), BOOL))
  k = itp.fresh_const("k", z3.IntSort())
  itp.check("close: every handler runs exactly once, none on a link closed before", z3.Implies(z3.And(0 <= k, k < l_len(HT, H)), sel(itp.st.ghost["calls"], sel(l_arr(HT, H), k)) == z3.If(t0["closed"], 0, 1)))
  before = itp.st.ghost["calls"]
  itp.call(itp.getattr(o, "close"), [])
  itp.check("close: closing again does nothing", sel(itp.st.ghost["calls"], sel(l_arr(HT, H), k)) == sel(before, sel(l_arr(HT, H), k)))
  st, v = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "recv"), [])))
  itp.check("recv: a closed link delivers nothing", st == "raise" and is_ccerr(itp, v))

def s_recv(itp):
  setup(itp)
  o, t0 = new_link(itp, closed=False)
  MSGT = ANY("message")
  cce = itp.call(ext_cls(itp, "ConnectionClosedError"), [])
  itp.ext_models["asyncio.create_task"] = lambda itp_, a, k: TaskV(a[0])
  last = {}
  def raw(itp_, args, kw):
    w = itp.choose(4, "raw")
    if w == 1: raise PyRaise(ExcV(asyncio.CancelledError, (cce,)))
    if w == 2: raise PyRaise(ExcV(asyncio.CancelledError, ()))
    if w == 3: raise PyRaise(cce)
    return itp.fresh("raw", MSGT)
  def proc(itp_, args, kw):
    r = itp.fresh("handed", OPT(MSGT))
    itp.st.ghost["last"] = r.t
    return r
  itp.st.ghost["last"] = itp.to_term(None, OPT(MSGT))
  itp.models[LINK + "._recv"] = raw
  itp.models[LINK + "._process_recv_message"] = proc
  def hint(lc):
    out = []
    for name in itp.st.frames[lc.fid]:
      if name.startswith("$") or name == "self": continue
      def cand(D, name=name):
        v = itp.st.frames[lc.fid].get(name, 0)
        if v is None or (isinstance(v, Sym) and v.ty in (MSGT, OPT(MSGT))): return itp.to_term(v, OPT(MSGT)) == itp.st.ghost["last"]
        return z3.BoolVal(False)
      out.append((f"{name} is the message handed on last", cand))
    return out
  itp.loop_hints.append(hint)
  st, v = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "recv"), [])))
  if st == "raise": itp.check("recv: ends by a closed connection or a cancellation only", is_ccerr(itp, v) or exc_is(itp, v, asyncio.CancelledError)); itp.check("recv: closing while receiving is reported as a closed connection", not (isinstance(v, ExcV) and len(v.args) > 0))
  else:
    v = itp.resolve(v)
    itp.check("recv: never returns a message that was kept back", v is not None)
    if v is not None: itp.check("recv: returns what the last received message was turned into", itp.to_term(v, OPT(MSGT)) == itp.st.ghost["last"])

SCENARIOS = [
  Scn("Link receives a subscription change", s_in, [LINK + "._process_recv_message"]),
  Scn("Link receives a topic announcement", announce("OutTopicsChangedMessage", "out_topics", "OutTopicsChangedRecvMessage"), [LINK + "._process_recv_message"]),
  Scn("Link receives an address announcement", announce("AddressesChangedMessage", "addresses", "AddressesChangedRecvMessage"), [LINK + "._process_recv_message"]),
  Scn("Link receives other messages", s_other, [LINK + "._process_recv_message"]),
  Scn("Link.send", s_send, [LINK + ".send"]),
  Scn("Link.get_priced_out_topics", s_lookup("get_priced_out_topics", "out_topics"), [LINK + ".get_priced_out_topics"]),
  Scn("Link.get_priced_addresses", s_lookup("get_priced_addresses", "addresses"), [LINK + ".get_priced_addresses"]),
  Scn("Link.recv", s_recv, [LINK + ".recv"]),
  Scn("Link.close", s_close, [LINK + ".close", LINK + ".recv"]),
]
ASSUMPTIONS = ["an announcement names each id at one price only (guaranteed by PricedIdTracker's contracts, P01)"]
