"""P03: stream messages reach exactly the subscribed links, never the sender."""
from contracts.switch import *

def count_hint(itp, wants):
  def hint(lc):
    if lc.seg is None or lc.seg.bty is not L: return []
    n0 = lc.in_pre(lambda: itp.fld_arr(LINK, "nsent"))
    l = z3.Const("l!ch", sort(L))
    return [("sent so far", lambda D: M.mk_forall([l], sel(itp.fld_arr(LINK, "nsent"), l) == sel(n0, l) + z3.If(D(l), 1, 0), [[sel(itp.fld_arr(LINK, "nsent"), l)], [sel(n0, l)], lc.dpat(l)]))]
  return hint

def s_stream(kind):
  def s(itp):
    sw_setup(itp)
    w = new_switch(itp)
    origin = fresh_link(itp, "origin")
    topic = itp.fresh("topic", INT)
    msg = itp.call(mcls(itp, kind), [topic, itp.fresh("data", PAY) if kind == "TopicDataMessage" else itp.fresh("paused", BOOL)])
    n0, in0, links0 = itp.fld_arr(LINK, "nsent"), itp.fld_arr(LINK, "in_topics"), w.links
    def send(itp_, args, kw):
      l = itp.to_term(args[0], L)
      itp.fld_set(LINK, "nsent", l, itp.fld_get(LINK, "nsent", l) + 1)
      itp.check("stream: the message is passed on unchanged", same_msg(itp, args[1], msg))
      if kind == "TopicControlMessage":
        t = itp.to_term(itp.getattr(w.o, "stream_controls"), CTLS)
        itp.check("control: recorded as the latest state before it is passed on", z3.And(sel(m_dom(CTLS, t), topic.t), r_get(CTL, "paused", sel(m_val(CTLS, t), topic.t)) == itp.to_term(itp.getattr(msg, "paused"), BOOL)))
      havoc_links(itp, w)      # the send may be suspended: other tasks run
      if itp.choose(2, "closed") == 1: raise PyRaise(cce(itp))
    itp.models[LINK + ".send"] = send
    itp.loop_hints.append(count_hint(itp, None))
    st, v = attempt(itp, lambda: run(itp, w.o, "handle_message", [msg, Sym(origin, L)]))
    itp.check("stream: no link failing or closing during the delivery disturbs the sender", st == "ok")
    l = fresh_link(itp)
    want = z3.And(is_link(w, l, links0), l != origin, sel(sel(in0, l), topic.t))
    n1 = itp.fld_get(LINK, "nsent", l)
    if st == "ok": itp.check("stream: every other link that wants the topic gets it exactly once, no other link does", n1 == sel(n0, l) + z3.If(want, 1, 0))
    itp.check("stream: never sent back to the sender", itp.fld_get(LINK, "nsent", origin) == sel(n0, origin))
    if kind == "TopicControlMessage":
      t = itp.to_term(itp.getattr(w.o, "stream_controls"), CTLS); i = itp.fresh_const("i", z3.IntSort())
      itp.check("control: no other topic's state changes", z3.Implies(i != topic.t, z3.And(sel(m_dom(CTLS, t), i) == sel(m_dom(CTLS, w.ctl), i), sel(m_val(CTLS, t), i) == sel(m_val(CTLS, w.ctl), i))))
  return s

def same_msg(itp, a, b):
  if isinstance(a, ObjRef) and isinstance(b, ObjRef):
    if a.addr == b.addr: return True
    ca, cb = itp.st.cells[a.addr], itp.st.cells[b.addr]
    if ca.cls is cb.cls: return itp.bz(itp.conj([itp.eq(ca.fields[f], cb.fields[f]) for f in cb.fields]))
  return False

NCTL = MAP(INT, INT)
def s_replay(itp):
  """a link that newly subscribes is told the latest control state"""
  sw_setup(itp)
  w = new_switch(itp)
  origin = fresh_link(itp, "origin")
  A, a = new_set(itp, "add", INT); R, r = new_set(itp, "remove", INT)
  msg = itp.call(mcls(itp, "InTopicsChangedMessage"), [a, r])
  CNT = z3.ArraySort(z3.IntSort(), z3.IntSort())
  itp.st.ghost["told"] = z3.K(z3.IntSort(), z3.IntVal(0))
  itp.st.ghost["others"] = z3.BoolVal(False)
  itp.st.ghost["wrong"] = z3.BoolVal(False)
  def send(itp_, args, kw):
    m = itp.deref(args[1])
    l = itp.to_term(args[0], L)
    if isinstance(m, Sym) and m.ty.kind == "rec": topic, paused = r_get(m.ty, "topic", m.t), r_get(m.ty, "paused", m.t)
    else: topic, paused = itp.to_term(itp.getattr(m, "topic"), INT), itp.to_term(itp.getattr(m, "paused"), BOOL)
    g = itp.st.ghost["told"]
    itp.st.ghost["told"] = z3.Store(g, topic, sel(g, topic) + 1)
    itp.check("replay: goes to the subscribing link", l == origin)
    itp.check("replay: tells the latest recorded state", z3.And(sel(m_dom(CTLS, w.ctl), topic), r_get(CTL, "paused", sel(m_val(CTLS, w.ctl), topic)) == paused))
    havoc_links(itp, w)
    if itp.choose(2, "closed") == 1: raise PyRaise(cce(itp))
  itp.models[LINK + ".send"] = send
  itp.rec_types[MSG + ":TopicControlMessage"] = REC(MSG + ":TopicControlMessage", topic=INT, paused=BOOL)
  itp.models[SW + ".request_in_topics_change"] = lambda *a: None
  itp.models["streamtasks.utils:IdTracker.add_many"] = lambda *a: new_set(itp, "fa", INT)[1]
  itp.models["streamtasks.utils:IdTracker.remove_many"] = lambda *a: new_set(itp, "fr", INT)[1]
  def hint(lc):
    if lc.seg is None: return []
    i = z3.Int("i!rp")
    g = lambda: itp.st.ghost["told"]
    if lc.seg.kind == "set" and lc.seg.bty is INT:
      return [("told so far", lambda D: M.mk_forall([i], sel(g(), i) == z3.If(D(i), 1, 0), [[sel(g(), i)], [D(i)]]))]
    return []
  itp.loop_hints.append(hint)
  st, v = attempt(itp, lambda: run(itp, w.o, "on_in_topics_changed", [msg, Sym(origin, L)]))
  i = itp.fresh_const("i", z3.IntSort())
  if st == "ok": itp.check("replay: exactly the recorded states of the new topics are told, once each", sel(itp.st.ghost["told"], i) == z3.If(z3.And(sel(A, i), sel(m_dom(CTLS, w.ctl), i)), 1, 0))
  else: itp.check("replay: fails only when the subscribing link has closed", is_ccerr(itp, v))

def is_ccerr(itp, v): return isinstance(v, ObjRef) and itp.st.cells[v.addr].cls is ext_cls(itp, "ConnectionClosedError")

SCENARIOS = [
  Scn("a data message arrives", s_stream("TopicDataMessage"), [SW + ".handle_message", SW + ".on_stream_message", SW + ".send_to"]),
  Scn("a control message arrives", s_stream("TopicControlMessage"), [SW + ".handle_message", SW + ".on_stream_message", SW + ".send_to"]),
  Scn("a link subscribes", s_replay, [SW + ".on_in_topics_changed"]),
]
ASSUMPTIONS = ["Link.send has its contract of P02; a closed link raises ConnectionClosedError; other tasks may run while it is suspended"]
