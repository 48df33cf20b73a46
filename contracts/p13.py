"""P13: synchronised inputs are released in timestamp order."""
from contracts.net import *
from contracts.p02 import any_message

TOP = "streamtasks.client.topic"
SEQ_, PRIO = TOP + ":SequentialInTopicSynchronizer", TOP + ":PrioritizedSequentialInTopicSynchronizer"
TS = MAP(INT, INT)
TRIG = "streamtasks.utils:AsyncTrigger"

def group(itp, prio):
  """a synchronizer in an arbitrary state"""
  s = type("S", (), {})()
  s.prio = prio
  itp.st.ghost["last"] = None
  f = {"_timestamp_trigger": itp.fresh("trigger", ANY("trig"))}
  s.o = itp.new_obj(itp.cls_by_qual(PRIO if prio else SEQ_), f)
  def scramble(keep=None):
    ts = itp.fresh_const("times", sort(TS))
    itp.setattr(s.o, "_topic_timestamps", itp.new_cont("map", TS, ts))
    if prio:
      d = itp.fresh_const("done", sort(IDS))
      if keep is not None: itp.assume(sel(d, keep) == sel(s.done(), keep))   # only the receiver of a topic starts to receive on it
      itp.setattr(s.o, "_done_topics", itp.new_cont("set", IDS, d))
      itp.setattr(s.o, "_topic_priorities", itp.new_cont("map", TS, itp.fresh_const("priorities", sort(TS))))
  s.scramble = scramble
  s.ts = lambda: itp.to_term(itp.getattr(s.o, "_topic_timestamps"), TS)
  s.done = lambda: field_set(itp, s.o, "_done_topics", INT) if prio else empty_set(INT)
  s.pri = lambda: itp.to_term(itp.getattr(s.o, "_topic_priorities"), TS) if prio else None
  s.state = lambda: (s.ts(), s.done())
  scramble()
  def trigger(itp_, o, a, k): itp_.st.ghost["last"] = s.state()
  def wait(itp_, o, a, k): return CoroV(lambda: itp_.yield_point("trigger"))
  itp.any_methods[("trig", "trigger")] = trigger
  itp.any_methods[("trig", "wait")] = wait
  return s
def has(m, i): return sel(m_dom(TS, m), i)
def at(m, i): return sel(m_val(TS, m), i)
def same(a, b, i): return z3.And(has(a, i) == has(b, i), z3.Implies(has(a, i), at(a, i) == at(b, i)))
def pr(m, i): return z3.If(has(m, i), at(m, i), 0)

def woken(itp, s, what, before):
  """whoever waits is woken after the last change"""
  x = itp.fresh_const("w", z3.IntSort())
  last = itp.st.ghost["last"]
  (t0, d0), (t1, d1) = (before if last is None else last), s.state()
  itp.check(f"{what}: waiting topics are told of every change", z3.And(same(t0, t1, x), sel(d0, x) == sel(d1, x)))

def s_wait(prio):
  n = "wait_for" + (" (priorities)" if prio else "")
  def s(itp):
    g = group(itp, prio)
    topic, stamp = itp.fresh("topic", INT), itp.fresh("timestamp", INT)
    t0, d0 = g.state()
    x = itp.fresh_const("x", z3.IntSort())
    itp.st.ghost["entered"] = False
    class Rule:
      @staticmethod
      def before(itp):
        t1, d1 = g.state()
        itp.check(f"{n}: a message older than one seen on its topic is dropped", z3.Not(z3.And(has(t0, topic.t), stamp.t < at(t0, topic.t))))
        itp.check(f"{n}: its topic moves to the message's time, no other moves", same(map_store(t0, topic.t, stamp.t), t1, x))
        woken(itp, g, n, (t0, d0))
        if prio: itp.check(f"{n}: its topic is busy from now on, no other changes", sel(d1, x) == z3.And(sel(d0, x), x != topic.t))
        itp.st.ghost["entered"] = True
        g.scramble(topic.t)     # any number of wake-ups later
        itp.st.ghost["last"] = None
      @staticmethod
      def after(itp):
        pass
    itp.event_rule = Rule
    def hook(itp_, why):
      itp.check(f"{n}: sleeps only while it must", itp.st.ghost["entered"])
      g.scramble(topic.t)
    itp.yield_hook = hook
    st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(g.o, "wait_for"), [topic, stamp])))
    itp.check(f"{n}: never fails", st == "ok")
    r = itp.truth(r)
    if not r:
      itp.check(f"{n}: only an old message is dropped", z3.And(z3.Not(z3.BoolVal(itp.st.ghost["entered"])), stamp.t < z3.If(has(t0, topic.t), at(t0, topic.t), 0)))
      t1, d1 = g.state()
      itp.check(f"{n}: dropping moves no topic", same(t0, t1, x))
      if prio: itp.check(f"{n}: dropping changes no other topic", z3.Implies(x != topic.t, sel(d1, x) == sel(d0, x)))
      return
    itp.check(f"{n}: released only after its time was recorded", itp.st.ghost["entered"])
    t1, d1 = g.state()
    itp.check(f"{n}: released only if no other active topic is at an earlier time", z3.Implies(z3.And(has(t1, x), x != topic.t), at(t1, x) >= stamp.t))
    if prio:
      P = g.pri()
      itp.check(f"{n}: of equal times the higher priority is processed first", z3.Not(z3.And(has(t1, x), x != topic.t, at(t1, x) == stamp.t, z3.Not(sel(d1, x)), pr(P, x) > pr(P, topic.t))))
      itp.check(f"{n}: its topic is busy while the message is processed", z3.Not(sel(d1, topic.t)))
  return s

def map_store(m, k, v):
  return mk(TS, z3.Store(m_dom(TS, m), k, z3.BoolVal(True)), z3.Store(m_val(TS, m), k, v))

def s_block(prio):
  """what is not in the way is released at once: _is_waiting holds exactly if someone is in the way"""
  n = "_is_waiting" + (" (priorities)" if prio else "")
  def s(itp):
    g = group(itp, prio)
    topic, stamp = itp.fresh("topic", INT), itp.fresh("timestamp", INT)
    t = g.ts()
    itp.assume(z3.And(has(t, topic.t), at(t, topic.t) == stamp.t))
    st, r = attempt(itp, lambda: itp.call(itp.getattr(g.o, "_is_waiting"), [topic, stamp]))
    itp.check(f"{n}: never fails", st == "ok")
    x, y = itp.fresh_const("x", z3.IntSort()), z3.Int("y!bl")
    t1, d1 = g.state()
    itp.check(f"{n}: changes nothing", z3.And(same(t, t1, x)))
    early = lambda i: z3.And(has(t1, i), at(t1, i) < stamp.t)
    high = lambda i: z3.And(has(t1, i), i != topic.t, at(t1, i) == stamp.t, z3.Not(sel(d1, i)), pr(g.pri(), i) > pr(g.pri(), topic.t)) if prio else z3.BoolVal(False)
    if itp.truth(r): itp.check(f"{n}: waits only if some topic is in the way", z3.Exists([y], z3.Or(early(y), high(y))))
    else: itp.check(f"{n}: waits if some topic is in the way", z3.Not(z3.Or(early(x), high(x))))
  return s

def s_pause(prio, value):
  n = f"set_paused({value})" + (" (priorities)" if prio else "")
  def s(itp):
    g = group(itp, prio)
    topic = itp.fresh("topic", INT)
    t0, d0 = g.state()
    x, y = itp.fresh_const("x", z3.IntSort()), itp.fresh_const("y", z3.IntSort())
    st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(g.o, "set_paused"), [topic, value])))
    itp.check(f"{n}: never fails", st == "ok")
    t1, d1 = g.state()
    itp.check(f"{n}: no other topic moves", z3.Implies(x != topic.t, same(t0, t1, x)))
    if value: itp.check(f"{n}: a paused topic holds back nobody", z3.Not(has(t1, topic.t)))
    else:
      itp.check(f"{n}: a resumed topic is active", has(t1, topic.t))
      itp.check(f"{n}: a topic that was not paused keeps its position", z3.Implies(has(t0, topic.t), at(t1, topic.t) == at(t0, topic.t)))
      z = z3.Int("z!pa")
      itp.check(f"{n}: a resumed topic is not ahead of the group", z3.Implies(z3.And(z3.Not(has(t0, topic.t)), has(t0, x)), at(t1, topic.t) <= at(t0, x)))
      itp.check(f"{n}: a resumed topic starts at the position of the group", z3.Implies(z3.And(z3.Not(has(t0, topic.t)), has(t0, x)), z3.Exists([z], z3.And(has(t0, z), at(t0, z) == at(t1, topic.t)))))
    woken(itp, g, n, (t0, d0))
  return s

def s_start(prio):
  n = "start_receive" + (" (priorities)" if prio else "")
  def s(itp):
    g = group(itp, prio)
    topic = itp.fresh("topic", INT)
    t0, d0 = g.state()
    x = itp.fresh_const("x", z3.IntSort())
    st, r = attempt(itp, lambda: itp.call(itp.getattr(g.o, "start_receive"), [topic]))
    itp.check(f"{n}: never fails", st == "ok")
    t1, d1 = g.state()
    itp.check(f"{n}: no topic moves", same(t0, t1, x))
    if prio: itp.check(f"{n}: its topic is done with its message", sel(d1, x) == z3.Or(sel(d0, x), x == topic.t))
    woken(itp, g, n, (t0, d0))
  return s

def s_priority(itp):
  g = group(itp, True)
  topic, v = itp.fresh("topic", INT), itp.fresh("priority", INT)
  (t0, d0), p0 = g.state(), g.pri()
  x = itp.fresh_const("x", z3.IntSort())
  st, r = attempt(itp, lambda: itp.call(itp.getattr(g.o, "set_priority"), [topic, v]))
  (t1, d1), p1 = g.state(), g.pri()
  itp.check("set_priority: sets exactly this topic's priority", z3.And(st == "ok", pr(p1, x) == z3.If(x == topic.t, v.t, pr(p0, x))))
  itp.check("set_priority: moves no topic", z3.And(same(t0, t1, x), sel(d0, x) == sel(d1, x)))

def s_init(prio):
  def s(itp):
    itp.models[TRIG] = lambda itp_, a, k: itp.fresh("trigger", ANY("trig"))
    o = itp.call(itp.cls_by_qual(PRIO if prio else SEQ_), [])
    itp.check("a new group has no active topic", itp.bz(itp.eq(M.length(itp, itp.getattr(o, "_topic_timestamps")), 0)))
  return s

ACT = TOP + ":_InTopicAction"
def s_get(itp):
  """the receiver of a synchronised topic: what it hands on was released by the group"""
  setup(itp)
  SY = ANY("sync")
  log = lambda *x: itp.st.ghost.__setitem__("log", itp.st.ghost["log"] + (x,))
  itp.st.ghost["log"] = ()
  topic = itp.fresh("topic", INT)
  sync = itp.fresh("sync", SY)
  o = itp.new_obj(itp.cls_by_qual(TOP + ":_SynchronizedInTopicReceiver"), {"_client": itp.fresh("client", ANY("client")), "_recv_queue": itp.fresh("queue", ANY("queue")), "_receiving_count": 0, "_topic": topic, "_sync": sync})
  E = itp.cls_by_qual(ACT)
  data = itp.fresh("data", ANY("raw"))
  stamp = itp.fresh("stamp", INT)
  paused = itp.fresh("paused", BOOL)
  ctl = itp.new_obj(itp.cls_by_qual(MSG + ":TopicControlData"), {"paused": paused})
  k = itp.choose(3)
  item = (itp.getattr(E, ["DATA", "SET_CONTROL", "SET_COST"][k]), [data, ctl, itp.fresh("cost", OPT(INT))][k])
  def get(itp_, s, a, kw):
    def th(): log("get"); return item
    return CoroV(th)
  itp.any_methods[("queue", "get")] = get
  def start(itp_, s, a, kw): log("start", a[0])
  def wait(itp_, s, a, kw):
    def th():
      r = itp.decide(itp.fresh_const("released", z3.BoolSort())); log("wait", a[0], a[1], r); return r
    return CoroV(th)
  def pause(itp_, s, a, kw):
    def th(): log("pause", a[0], a[1])
    return CoroV(th)
  itp.any_methods.update({("sync", "start_receive"): start, ("sync", "wait_for"): wait, ("sync", "set_paused"): pause})
  def stamp_of(itp_, a, kw):
    itp.check("get: the time is the message's own", itp.bz(itp.eq(a[0], data)))
    if itp.choose(2): itp.raise_py(ValueError, "no timestamp")
    return stamp
  itp.models["streamtasks.message.utils:get_timestamp_from_message"] = stamp_of
  def common(itp):
    L = itp.st.ghost["log"]
    itp.check("get: says it is done with the previous message before taking the next", [x[0] for x in L[:2]] == ["start", "get"])
    itp.check("get: takes one message at a time", sum(x[0] == "get" for x in L) == 1)
    for x in L:
      if x[0] in ("start", "wait", "pause"): itp.check("get: acts for its own topic", itp.bz(itp.eq(x[1], topic)))
    return L
  class Rule:
    @staticmethod
    def after(itp):
      L = common(itp)
      itp.check("get: a control message is never swallowed", k != 1)
      if k == 0: itp.check("get: only a message not released is dropped", not any(x[0] == "wait" and x[3] for x in L))
  itp.event_rule = Rule
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "get"), [])))
  itp.check("get: never fails", st == "ok")
  if st != "ok": return
  L = common(itp)
  r = itp.deref(r)
  ok = isinstance(r, tuple) and len(r) == 2
  itp.check("get: hands on what was received", ok and itp.bz(itp.eq(r[0], item[0])))
  if not ok: return
  if k == 0:
    itp.check("get: hands on the message itself", itp.bz(itp.eq(r[1], data)))
    w = [x for x in L if x[0] == "wait"]
    itp.check("get: hands on only a message the group released", len(w) == 1 and w[0][3])
    if len(w) == 1: itp.check("get: released at the message's time", itp.bz(itp.eq(w[0][2], stamp)))
  if k == 1:
    itp.check("get: hands on the control itself", itp.deref(r[1]) == ctl)
    pz = [x for x in L if x[0] == "pause"]
    itp.check("get: the group learns of the pause first", len(pz) == 1)
    if len(pz) == 1: itp.check("get: the group learns the given value", itp.bz(itp.eq(pz[0][2], paused)))

def s_recv(itp):
  """recv_data_control/recv_data hand on every released message, and track the pause"""
  itp.st.ghost["seen"] = ()
  data = itp.fresh("data", ANY("raw"))
  paused, was = itp.fresh("paused", BOOL), itp.fresh("was", BOOL)
  ctl = itp.new_obj(itp.cls_by_qual(MSG + ":TopicControlData"), {"paused": paused})
  E = itp.cls_by_qual(ACT)
  k = itp.choose(3)
  item = (itp.getattr(E, ["DATA", "SET_CONTROL", "SET_COST"][k]), [data, ctl, itp.fresh("cost", OPT(INT))][k])
  def get(itp_, s, a, kw): return CoroV(lambda: item)
  itp.any_methods[("rcv", "get")] = get
  itp.st.ghost["p"] = was
  def set_(itp_, s, a, kw): itp.st.ghost["p"] = a[0]
  itp.any_methods[("abool", "set")] = set_
  o = itp.new_obj(itp.cls_by_qual(TOP + ":InTopic"), {"_client": itp.fresh("client", ANY("client")), "_topic": itp.fresh("topic", INT), "_registered": True, "_receiver": itp.fresh("receiver", ANY("rcv")), "_a_is_paused": itp.fresh("flag", ANY("abool")), "_cost": itp.fresh("cost0", OPT(INT))})
  class Rule:
    @staticmethod
    def after(itp): itp.check("recv_data_control: only a cost is not handed on", k == 2)
  itp.event_rule = Rule
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "recv_data_control"), [])))
  itp.check("recv_data_control: never fails", st == "ok")
  itp.check("recv_data_control: hands on what it received", itp.bz(itp.eq(r, data)) if k == 0 else (itp.deref(r) == ctl) if k == 1 else False)
  itp.check("recv_data_control: the pause state is the last one received", itp.bz(itp.eq(itp.st.ghost["p"], paused if k == 1 else was)))

SCENARIOS = [f for p_ in (False, True) for f in (
  Scn("wait_for" + " prio" * p_, s_wait(p_), [(PRIO if p_ else SEQ_) + ".wait_for"]), Scn("_is_waiting" + " prio" * p_, s_block(p_), [(PRIO if p_ else SEQ_) + "._is_waiting"]),
  Scn("pause" + " prio" * p_, s_pause(p_, True), [SEQ_ + ".set_paused"]), Scn("resume" + " prio" * p_, s_pause(p_, False), [SEQ_ + ".set_paused"]), Scn("start_receive" + " prio" * p_, s_start(p_), [(PRIO if p_ else TOP + ":InTopicSynchronizer") + ".start_receive"]), Scn("new" + " prio" * p_, s_init(p_), [SEQ_ + ".__init__"]))] + [
  Scn("set_priority", s_priority, [PRIO + ".set_priority"]), Scn("_SynchronizedInTopicReceiver.get", s_get, [TOP + ":_SynchronizedInTopicReceiver.get"]), Scn("InTopic.recv_data_control", s_recv, [TOP + ":InTopic.recv_data_control"])]
ASSUMPTIONS = ["the priorities of a group do not change while it is in use", "only the receiver of a topic calls start_receive and wait_for for it, one at a time", "AsyncTrigger.trigger wakes every waiter"]
