"""P24: gate, latch, switch, concatenator and detector: one iteration of every receive loop, from an arbitrary state"""
from contracts.tasks import *
T_ = "streamtasks.system.tasks."
half = z3.RealVal("0.5")
def isb(itp, v, f): return itp.bz(itp.eq(v, Sym(f, BOOL)))
def b_(itp, v): return itp.to_term(itp.resolve(v), BOOL)

# ---------------------------------------------------------------- gate
GT = T_ + "gate"
FLAGS = ["control", "control_paused", "control_errored", "input_paused"]
def gate(itp, mode):
  T = Topics(itp)
  S0 = {n: itp.fresh(n, BOOL) for n in FLAGS}
  # attribute writes of the state notify its watchers (AsyncObservable): executed from source
  st = itp.new_obj(itp.cls_by_qual(GT + ":GateState"), {"_change_trigger": itp.fresh("trigger", ANY("trigger")), **S0})
  itp.any_methods[("trigger", "trigger")] = lambda itp_, s, a, k: itp.st.ghost.__setitem__("notified", True)
  E = itp.cls_by_qual(GT + ":GateFailMode")
  I_, C_, O_ = T.topic("in"), T.topic("control"), T.out()
  itp.assume(I_.t != C_.t)
  o = itp.new_obj(itp.cls_by_qual(GT + ":GateTask"), {"in_topic": I_, "control_topic": C_, "out_topic": O_, "state": st, "fail_mode": itp.getattr(E, mode), "client": itp.fresh("client", ANY("client"))})
  now = lambda n: b_(itp, itp.getattr(st, n))
  z = {n: S0[n].t for n in FLAGS}
  same = lambda *ex: z3.And(*[now(n) == z[n] for n in FLAGS if n not in ex])
  return T, o, st, z, now, same, I_, C_, O_
def open_(z, mode): return z3.And(z["control"], z3.Not(z["input_paused"]), z3.Not(z3.Or(z["control_paused"], z["control_errored"])) if mode == "CLOSED" else True)
def s_gate(loop, mode):
  def s(itp):
    T, o, st, z, now, same, I_, C_, O_ = gate(itp, mode)
    def after():
      k, x, p = itp.st.ghost["last"]; m = itp.st.ghost["msg"]; sent = T.sent()
      src = itp.st.ghost["src"]
      if loop == "run_in_recv":
        itp.check("the input is received", src.t == I_.t)
        if k == "control":
          itp.check("a pause of the input is remembered, nothing else", z3.And(now("input_paused") == p.t, same("input_paused")))
          itp.check("a pause forwards nothing", not sent)
        else:
          itp.check("a message changes no state", same())
          itp.check("at most one message is forwarded", len(sent) <= 1)
          itp.check("it is forwarded exactly when the gate is open", z3.BoolVal(len(sent) == 1) == open_(z, mode))
          if sent: itp.check("the message itself is forwarded", z3.And(itp.bz(itp.eq(sent[0][2], x)), sent[0][1].t == O_.t))
      else:
        itp.check("the control is received", src.t == C_.t)
        itp.check("the control's messages are not forwarded", not sent)
        if k == "control": itp.check("a pause of the control is remembered, nothing else", z3.And(now("control_paused") == p.t, same("control_paused")))
        elif m[0] == "bad": itp.check("a faulty control is remembered, nothing else", z3.And(now("control_errored"), same("control_errored")))
        else:
          v = real(itp, itp.getattr(m[1], "value"))
          itp.check("a number above 0.5 turns the control on, another off", now("control") == (v > half))
          itp.check("the control is no longer faulty", z3.Not(now("control_errored")))
          itp.check("nothing else changes", same("control", "control_errored"))
    L, got = T.loops(o)
    T.opened(got, [(I_, "input"), (C_, "control"), (O_, "output")])
    c = T.reader(L, I_ if loop == "run_in_recv" else C_, "input" if loop == "run_in_recv" else "control")
    T.iteration(lambda: itp.await_(c), after)
  return s
def s_pauser(mode):
  def s(itp):
    T, o, st, z, now, same, I_, C_, O_ = gate(itp, mode)
    def wait(itp_, s, a, k):
      def th():
        ps = T.pauses()
        itp.check("it waits for a change only after the output follows the gate", len(ps) == 1)
        if len(ps) == 1: itp.check("the output is paused exactly while the gate is not open", b_(itp, ps[0][2]) == z3.Not(open_(z, mode)))
        itp.st.ghost["waited"] = True
      return CoroV(th)
    itp.any_methods[("trigger", "wait")] = wait
    c = T.waiter(T.loops(o)[0], "change", "follows changes")
    T.iteration(lambda: itp.await_(c), lambda: itp.check("it waits for a change", itp.st.ghost.get("waited", False)))
  return s
def s_observable(itp):
  """changing an attribute of an observable to another value wakes those who wait for a change"""
  T, o, st, z, now, same, *_ = gate(itp, "OPEN")
  itp.st.ghost["notified"] = False
  n = FLAGS[itp.choose(len(FLAGS))]; v = itp.fresh("new", BOOL)
  itp.setattr(st, n, v)
  itp.check("the attribute has its new value", now(n) == v.t)
  itp.check("no other attribute changes", same(n))
  itp.check("a change wakes those who wait", z3.Or(z3.BoolVal(itp.st.ghost["notified"]), v.t == z[n]))
def s_gate_new(itp):
  c = itp.fresh("initial", BOOL)
  itp.models["streamtasks.utils:AsyncTrigger"] = lambda itp_, a, k: itp.fresh("trigger", ANY("trigger"))
  itp.any_methods[("trigger", "trigger")] = lambda itp_, s, a, k: None
  st = itp.call(itp.cls_by_qual(GT + ":GateState"), [c])
  itp.check("a new gate's control is as configured, nothing is paused or faulty", z3.And(b_(itp, itp.getattr(st, "control")) == c.t, *[z3.Not(b_(itp, itp.getattr(st, n))) for n in FLAGS[1:]]))

# ---------------------------------------------------------------- SR latch
LT = T_ + "srlatch"
def s_latch(itp):
  T = Topics(itp)
  s0, r0, v0 = itp.fresh("set", BOOL), itp.fresh("reset", BOOL), itp.fresh("value", BOOL)
  st_, rt, out = T.topic("set"), T.topic("reset"), T.out()
  itp.assume(st_.t != rt.t)
  o = itp.new_obj(itp.cls_by_qual(LT + ":SRLatchTask"), {"set_topic": st_, "reset_topic": rt, "out_topic": out, "set_value": s0, "reset_value": r0, "value": v0, "config": itp.fresh("config", ANY("config")), "client": itp.fresh("client", ANY("client"))})
  which = itp.choose(2)
  def after():
    k, x, p = itp.st.ghost["last"]; m = itp.st.ghost["msg"]; sent = T.sent()
    now = lambda n: b_(itp, itp.getattr(o, n))
    if m[0] == "bad":
      itp.check("what is no number changes nothing and sends nothing", z3.And(now("set_value") == s0.t, now("reset_value") == r0.t, now("value") == v0.t, z3.BoolVal(not sent)))
      return
    v = real(itp, itp.getattr(m[1], "value")) > half
    S, R = (v, r0.t) if which == 0 else (s0.t, v)
    itp.check("the input is high above 0.5", z3.And(now("set_value") == S, now("reset_value") == R))
    want = z3.If(z3.And(S, z3.Not(R)), True, z3.If(z3.And(R, z3.Not(S)), False, v0.t))
    itp.check("set and reset when exactly one is high, else kept", now("value") == want)
    itp.check("one output for every number", len(sent) == 1 and itp.bz(itp.eq(sent[0][1], out)))
    if len(sent) == 1: itp.check("the output has the number's time and the latch's value", T.number(sent[0][2], itp.getattr(m[1], "timestamp"), z3.If(want, z3.RealVal(1), z3.RealVal(0))))
  L, got = T.loops(o)
  T.opened(got, [(st_, "set input"), (rt, "reset input"), (out, "output")])
  c = T.reader(L, [st_, rt][which], ["set input", "reset input"][which])
  T.iteration(lambda: itp.await_(c), after)

# ---------------------------------------------------------------- switch
SW = T_ + "switch"
CV = MAP(INT, REAL)
PT = LIST(TUP(ANY("intopic"), ANY("intopic")))
def first(t): return t.sort().accessor(0, 0)(t)
class Sw:
  def __init__(self, itp):
    self.itp = itp; self.T = T = Topics(itp)
    self.n = itp.fresh_const("pairs", z3.IntSort()); itp.assume(self.n >= 1)
    self.m0 = itp.to_term(itp.fresh("controls", CV), CV)
    x = z3.Int("x!m")
    itp.assume(M.mk_forall([x], z3.Implies(sel(m_dom(CV, self.m0), x), z3.And(x >= 0, x < self.n)), [[sel(m_dom(CV, self.m0), x)]]))
    self.paused = z3.Function("is_paused", sort(ANY("intopic")), z3.BoolSort())
    itp.attr_models[("intopic", "is_paused")] = lambda itp_, s: Sym(self.paused(s.t), BOOL)
    self.pt = itp.fresh_const("pairs", sort(PT))
    itp.assume(l_len(PT, self.pt) == self.n)
    self.out = T.out()
    self.o = itp.new_obj(itp.cls_by_qual(SW + ":SwitchTask"), {"out_topic": self.out, "pairs": itp.new_cont("list", PT, self.pt), "control_values": itp.new_cont("map", CV, self.m0), "client": itp.fresh("client", ANY("client"))})
  def now(self): return self.itp.to_term(self.itp.getattr(self.o, "control_values"), CV)
  def highest(self, i, m):
    y = z3.Int("y!h")
    return z3.And(sel(m_dom(CV, m), i), z3.ForAll([y], z3.Implies(sel(m_dom(CV, m), y), sel(m_val(CV, m), y) <= sel(m_val(CV, m), i))))
  def selected(self):
    """by the contract of _get_selected_index"""
    itp = self.itp
    def model(itp_, a, k):
      r = itp.fresh_const("selected", z3.IntSort()); m = self.now(); y = z3.Int("y!e")
      if itp.choose(2):
        itp.assume(M.mk_forall([y], z3.Not(sel(m_dom(CV, m), y)), [[sel(m_dom(CV, m), y)]])); itp.assume(r == -1)
      else: itp.assume(self.highest(r, m))
      itp.st.ghost["selected"] = r
      return Sym(r, INT)
    itp.models[SW + ":SwitchTask._get_selected_index"] = model
def s_select(itp):
  w = Sw(itp)
  st, r = attempt(itp, lambda: itp.call(itp.getattr(w.o, "_get_selected_index"), []))
  itp.check("selecting never fails", st == "ok")
  if st != "ok": return
  r = itp.to_term(itp.resolve(r), INT); x = itp.fresh_const("x", z3.IntSort())
  m = w.m0
  itp.check("-1 exactly when no control has a value", z3.Implies(r == -1, z3.Not(sel(m_dom(CV, m), x))))
  itp.check("else one that has a value", z3.Implies(r != -1, sel(m_dom(CV, m), r)))
  itp.check("and none has a higher one", z3.Implies(z3.And(r != -1, sel(m_dom(CV, m), x)), sel(m_val(CV, m), x) <= sel(m_val(CV, m), r)))
  d1 = w.now()
  itp.check("selecting changes no control", z3.And(sel(m_dom(CV, d1), x) == sel(m_dom(CV, m), x), sel(m_val(CV, d1), x) == sel(m_val(CV, m), x)))
def s_switch_in(itp):
  w = Sw(itp); w.selected(); T = w.T
  idx = itp.fresh("idx", INT); itp.assume(z3.And(idx.t >= 0, idx.t < w.n))
  topic = T.topic("in")
  def after():
    k, x, p = itp.st.ghost["last"]; sent, ps = T.sent(), T.pauses()
    r = itp.st.ghost.get("selected")
    itp.check("the selection is looked at", r is not None)
    if r is None: return
    if k == "control": itp.check("a pause forwards nothing", not sent)
    else:
      itp.check("forwarded exactly when its control is selected", z3.And(z3.BoolVal(len(sent) == 1) == (r == idx.t), z3.BoolVal(len(sent) <= 1)))
      if sent: itp.check("the message itself is forwarded", itp.bz(itp.eq(sent[0][2], x)) if True else None)
    itp.check("the output's pause follows the selected input only", z3.And(z3.Implies(r == idx.t, z3.And(z3.BoolVal(len(ps) >= 1), *[b_(itp, q[2]) == w.paused(topic.t) for q in ps])), z3.Implies(r != idx.t, z3.BoolVal(not ps))))
    d1 = w.now(); y = itp.fresh_const("y", z3.IntSort())
    itp.check("no control changes", z3.And(sel(m_dom(CV, d1), y) == sel(m_dom(CV, w.m0), y), sel(m_val(CV, d1), y) == sel(m_val(CV, w.m0), y)))
  T.iteration(lambda: itp.await_(itp.call(itp.getattr(w.o, "_run_input_receiver"), [topic, idx])), after)
def s_switch_control(nan):
  def s(itp):
    w = Sw(itp); w.selected(); T = w.T
    idx = itp.fresh("idx", INT); itp.assume(z3.And(idx.t >= 0, idx.t < w.n))
    if nan:
      itp.st.ghost["field:NumberMessage.value"] = float("nan")
      itp.models[SW + ":SwitchTask.set_value"] = lambda itp_, a, k: itp.check("what is no number does not become a control value", False)
    def after():
      k, x, p = itp.st.ghost["last"]; m = itp.st.ghost["msg"]; sent, ps = T.sent(), T.pauses()
      d0, d1 = w.m0, w.now(); y = itp.fresh_const("y", z3.IntSort())
      dom, val = lambda d, i: sel(m_dom(CV, d), i), lambda d, i: sel(m_val(CV, d), i)
      same = lambda i: z3.And(dom(d0, i) == dom(d1, i), z3.Implies(dom(d0, i), val(d0, i) == val(d1, i)))
      itp.check("a control forwards nothing", not sent)
      itp.check("other controls keep their values", z3.Implies(y != idx.t, same(y)))
      if k == "control":
        itp.check("a pause takes the control's value away, an end of a pause changes nothing", z3.If(p.t, z3.Not(dom(d1, idx.t)), same(idx.t)))
      elif m[0] == "bad" or nan: itp.check("what is no number changes nothing", same(idx.t))
      else:
        itp.check("a number becomes the control's value", z3.And(dom(d1, idx.t), itp.bz(itp.eq(itp.getattr(m[1], "value"), Sym(val(d1, idx.t), REAL)))))
        r = itp.st.ghost.get("selected")
        if r is not None and ps: itp.check("the output's pause is that of the selected input", z3.And(*[b_(itp, q[2]) == w.paused(first(sel(l_arr(PT, w.pt), r))) for q in ps]))
        itp.check("the output's pause follows the selection", len(ps) >= 1)
    T.iteration(lambda: itp.await_(itp.call(itp.getattr(w.o, "_run_control_receiver"), [T.topic("control"), idx])), after)
  return s

# ---------------------------------------------------------------- string concatenator
SC = T_ + "stringconcatenator"
def concat(itp):
  T = Topics(itp)
  v0 = itp.fresh("collected", STR)
  i, c, out = T.topic("in"), T.topic("control"), T.out()
  itp.assume(i.t != c.t)
  o = itp.new_obj(itp.cls_by_qual(SC + ":StringConcatenatorTask"), {"in_topic": i, "control_topic": c, "out_topic": out, "value": v0, "client": itp.fresh("client", ANY("client"))})
  return T, o, v0, out, lambda: itp.to_term(itp.resolve(itp.getattr(o, "value")), STR), i, c
def s_collect(itp):
  T, o, v0, out, now, i, c = concat(itp)
  def after():
    m = itp.st.ghost["msg"]
    itp.check("the input is received", itp.st.ghost["src"].t == i.t)
    if m[0] == "bad": itp.check("what is no text changes nothing", now() == v0.t)
    else: itp.check("a text is appended", now() == z3.Concat(v0.t, itp.to_term(itp.getattr(m[1], "value"), STR)))
    itp.check("collecting sends nothing", not T.sent())
  L, got = T.loops(o)
  T.opened(got, [(i, "input"), (c, "control"), (out, "output")])
  r = T.reader(L, i, "input")
  T.iteration(lambda: itp.await_(r), after)
def s_emit(itp):
  T, o, v0, out, now, i, c = concat(itp)
  last = itp.fresh("last_control", REAL)
  itp.st.ghost["names"] = None
  def locs(d):
    # the control seen last, of this or an earlier iteration
    if len(d) != 1: return None
    n, v = next(iter(d.items()))
    itp.check("before the first control it counts as low", z3.Not(real(itp, v) > half))
    itp.st.ghost["names"] = n
    return {n: last}
  def after():
    k, x, p = itp.st.ghost["last"]; m = itp.st.ghost["msg"]; sent, ps = T.sent(), T.pauses()
    itp.check("the control is received", itp.st.ghost["src"].t == c.t)
    n = itp.st.ghost["names"]
    fr = next((f for f in itp.st.frames.values() if n in f), None)
    l1 = real(itp, itp.resolve(fr[n])) if fr is not None else None
    if k == "control" or m[0] == "bad":
      itp.check("no number: nothing is emitted, text and last control stay", z3.And(z3.BoolVal(not sent), now() == v0.t, l1 == last.t))
      return
    v = real(itp, itp.getattr(m[1], "value"))
    edge = z3.And(z3.Not(last.t > half), v > half, z3.Length(v0.t) > 0)
    itp.check("the number is remembered", (l1 > half) == (v > half))
    itp.check("emitted exactly on a rising edge with text", z3.And(z3.BoolVal(len(sent) <= 1), z3.BoolVal(len(sent) == 1) == edge))
    itp.check("afterwards nothing is collected, else the text stays", now() == z3.If(edge, z3.StringVal(""), v0.t))
    if sent:
      b = T.body(sent[0][2])
      itp.check("the collected text is emitted with the control's time", b is not None and z3.And(itp.bz(itp.eq(b.get("timestamp"), itp.getattr(m[1], "timestamp"))), itp.bz(itp.eq(b.get("value"), v0))))
  r = T.reader(T.loops(o)[0], c, "control")
  T.iteration(lambda: itp.await_(r), after, locals_=locs)

# ---------------------------------------------------------------- message detector
MD = T_ + "messagedetector"
DF = ["last_message_invalid", "input_paused", "timed_out"]
def detector(itp, mode):
  T = Topics(itp)
  S0 = {n: itp.fresh(n, BOOL) for n in DF}
  E = itp.cls_by_qual(MD + ":MessageDetectorFailMode")
  st = itp.new_obj(itp.cls_by_qual(MD + ":MessageDetectorState"), {"_change_trigger": itp.fresh("trigger", ANY("trigger")), "fail_mode": itp.getattr(E, mode), **S0})
  itp.any_methods[("trigger", "trigger")] = lambda itp_, s, a, k: None
  itp.any_methods[("msgtrigger", "trigger")] = lambda itp_, s, a, k: itp.st.ghost.__setitem__("timely", True)
  itp.st.ghost["timely"] = False; itp.st.ghost["stamps"] = ()
  ts = itp.fresh("timestamp_of_message", INT); itp.st.ghost["valid"] = None
  def stamp(itp_, a, k):
    itp.check("the message received is looked at", itp.bz(itp.eq(a[0], itp.st.ghost["last"][1])))
    itp.st.ghost["valid"] = v = itp.choose(2) == 0
    if not v: itp.raise_py(ValueError, "no timestamp")
    return ts
  itp.models["streamtasks.message.utils:get_timestamp_from_message"] = stamp
  itp.any_methods[("timesync", "update")] = lambda itp_, s, a, k: itp.st.ghost.__setitem__("stamps", itp.st.ghost["stamps"] + (a[0],))
  time = itp.fresh("now", INT)
  itp.attr_models[("timesync", "time")] = lambda itp_, s: time
  tmo, rep = itp.fresh("time_out", REAL), itp.fresh("repeat", REAL)
  itp.assume(z3.And(tmo.t >= 0, rep.t >= 0))
  cfg = itp.new_obj(itp.cls_by_qual(MD + ":MessageDetectorConfig"), {"fail_mode": itp.getattr(E, mode), "time_out": tmo, "repeat_interval": rep, "in_topic": itp.fresh("i", INT), "signal_topic": itp.fresh("s", INT)})
  out = T.out()
  o = itp.new_obj(itp.cls_by_qual(MD + ":MessageDetectorTask"), {"config": cfg, "time_sync": itp.fresh("sync", ANY("timesync")), "in_topic": T.topic(), "signal_topic": out, "message_trigger": itp.fresh("mtrigger", ANY("msgtrigger")), "state": st, "client": itp.fresh("client", ANY("client"))})
  now = lambda n: b_(itp, itp.getattr(st, n)); z = {n: S0[n].t for n in DF}
  return T, o, st, z, now, (lambda *ex: z3.And(*[now(n) == z[n] for n in DF if n not in ex])), ts, time, tmo, out
def signal(z, mode): return z3.And(z3.Not(z["input_paused"]), z3.Not(z["timed_out"]), z3.Not(z["last_message_invalid"]) if mode == "CLOSED" else True)
def s_watch_in(itp):
  T, o, st, z, now, same, ts, _t, _o, out = detector(itp, "OPEN")
  def after():
    k, x, p = itp.st.ghost["last"]
    if k == "control": itp.check("a pause is remembered, nothing else", z3.And(now("input_paused") == p.t, same("input_paused"), z3.BoolVal(not itp.st.ghost["timely"])))
    else:
      itp.check("a message counts as timely", itp.st.ghost["timely"])
      v = itp.st.ghost["valid"]
      itp.check("whether it is valid is remembered, nothing else", z3.And(now("last_message_invalid") == z3.BoolVal(not v), same("last_message_invalid")) if v is not None else False)
      itp.check("the time follows valid messages", len(itp.st.ghost["stamps"]) == (1 if v else 0) and all(itp.bz(itp.eq(q, ts)) is not None for q in itp.st.ghost["stamps"]))
      for q in itp.st.ghost["stamps"]: itp.check("it is the message's time", itp.bz(itp.eq(q, ts)))
  L, got = T.loops(o)
  i = itp.getattr(o, "in_topic")
  T.opened(got, [(i, "input"), (out, "output")])
  r = T.reader(L, i, "input")
  T.iteration(lambda: itp.await_(r), after)
def s_timeout(itp):
  T, o, st, z, now, same, ts, time, tmo, out = detector(itp, "OPEN")
  itp.any_methods[("msgtrigger", "wait")] = lambda itp_, s, a, k: CoroV(lambda: None)
  def wait_for(itp_, a, k):
    t = a[1] if len(a) > 1 else k.get("timeout")
    def th():
      itp.check("it waits for a message as long as configured", itp.bz(itp.eq(t, tmo)))
      late = itp.choose(2) == 1
      itp.st.ghost["late"] = late
      if late: itp.raise_py(TimeoutError)
    return CoroV(th)
  L, _ = T.loops(o)
  ws = [c for f, c in L if f is None or f[0] == "msg"]
  itp.check("one loop watches the time", len(ws) == 1)
  if len(ws) != 1: return
  itp.ext_models["asyncio.wait_for"] = wait_for
  def after():
    itp.check("timed out exactly when no message came in time, nothing else", z3.And(now("timed_out") == z3.BoolVal(bool(itp.st.ghost.get("late"))), same("timed_out")))
  class Rule: pass
  Rule.after = staticmethod(lambda itp: after()); itp.event_rule = Rule
  st_, r = attempt(itp, lambda: itp.await_(ws[0]))
  itp.check("without a time-out there is nothing to watch", z3.And(z3.BoolVal(st_ == "ok"), tmo.t < itp.to_term(0.001, REAL), same()))
def s_signal(mode):
  def s(itp):
    T, o, st, z, now, same, ts, time, tmo, out = detector(itp, mode)
    waited = []
    def check_sent():
      S = T.sent()
      itp.check("it waits only after the signal is out", len(S) == 1 and itp.bz(itp.eq(S[0][1], out)))
      if len(S) == 1: itp.check("the signal is 1 exactly while valid, timely input arrives", T.number(S[0][2], time, z3.If(signal(z, mode), z3.RealVal(1), z3.RealVal(0))))
    itp.any_methods[("trigger", "wait")] = lambda itp_, s, a, k: CoroV(lambda: None)
    def wait_for(itp_, a, k):
      def th():
        check_sent(); itp.st.ghost["waited"] = True
        if itp.choose(2): itp.raise_py(TimeoutError)
        itp.await_(a[0])
      return CoroV(th)
    c = T.waiter(T.loops(o)[0], "change", "signals")
    itp.ext_models["asyncio.wait_for"] = wait_for
    T.iteration(lambda: itp.await_(c), lambda: itp.check("it waits for a change or the repeat interval", itp.st.ghost.get("waited", False)))
  return s
SCENARIOS = [Scn(f"gate {l} {m}", s_gate(l, m), [GT + ":GateTask." + l, GT + ":GateState.get_open"]) for l in ("run_in_recv", "run_control_recv") for m in ("OPEN", "CLOSED")] + \
  [Scn(f"gate output pause {m}", s_pauser(m), [GT + ":GateTask.run_out_pauser", GT + ":GateState.get_output_paused"]) for m in ("OPEN", "CLOSED")] + \
  [Scn("changes are noticed", s_observable, ["streamtasks.utils:AsyncObservable.__setattr__"]), Scn("new gate", s_gate_new, [GT + ":GateState.__init__"]),
   Scn("latch", s_latch, [LT + ":SRLatchTask._run_receive", LT + ":SRLatchTask.send"]),
   Scn("switch selection", s_select, [SW + ":SwitchTask._get_selected_index"]), Scn("switch input", s_switch_in, [SW + ":SwitchTask._run_input_receiver"]),
   Scn("switch control", s_switch_control(False), [SW + ":SwitchTask._run_control_receiver", SW + ":SwitchTask.set_value"]), Scn("switch control without a number", s_switch_control(True), [SW + ":SwitchTask._run_control_receiver"]),
   Scn("collecting text", s_collect, [SC + ":StringConcatenatorTask.run_receiver"]), Scn("emitting text", s_emit, [SC + ":StringConcatenatorTask.run_control_recv"]),
   Scn("detector input", s_watch_in, [MD + ":MessageDetectorTask.run_main"]), Scn("detector time-out", s_timeout, [MD + ":MessageDetectorTask.run_watcher"])] + \
  [Scn(f"detector signal {m}", s_signal(m), [MD + ":MessageDetectorTask.run_updater", MD + ":MessageDetectorState.signal"]) for m in ("OPEN", "CLOSED")]
ASSUMPTIONS = ["AsyncTrigger.trigger wakes every waiter", "floats as mathematical reals, not-a-number as itself where a task treats it specially", "the loops of a task are started with their own topics (run), watched by the bounded part", "asyncio.wait_for starts waiting at once (Python 3.12)"]
BOUNDED = ["the tasks as a whole on a real network: random histories"]
