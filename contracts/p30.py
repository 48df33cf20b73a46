"""P30: consumers and shared producers. A future of the trigger is done once the trigger fired after it was created; other tasks run wherever one waits."""
from contracts.net import *
import asyncio

U = "streamtasks.utils"
CONS, PROD, MPP = U + ":AsyncConsumer", U + ":AsyncProducer", U + ":AsyncMPProducer"
MSGT = ANY("message"); Q = LIST(MSGT); CR = REF(CONS)

# ------------------------------------------------------------------ consumer
class Cons:
  def __init__(self, itp):
    self.itp = itp
    g = itp.st.ghost
    g["epoch"] = itp.fresh_const("epoch", z3.IntSort()); g["futs"] = ()
    self.o = itp.new_obj(itp.cls_by_qual(CONS), {"_producer": itp.fresh("producer", ANY("producer")), "_queue": None, "_trigger": itp.fresh("trigger", ANY("trigger")), "_closed": None})
    self.scramble(first=True)
    def wait(itp_, s, a, k):
      f = itp.fresh("future", ANY("future")); itp.st.ghost["futs"] = itp.st.ghost["futs"] + ((f.t, itp.st.ghost["epoch"]),); return f
    def trigger(itp_, s, a, k): itp.st.ghost["epoch"] = itp.st.ghost["epoch"] + 1; itp.st.ghost["told"] = self.state()
    A = itp.any_methods
    A[("trigger", "wait")], A[("trigger", "trigger")] = wait, trigger
    A[("future", "done")] = lambda itp_, s, a, k: Sym(itp.st.ghost["epoch"] > self.since(s), BOOL)
    def sleep(itp_, s, a, k):
      if itp.decide(itp.st.ghost["epoch"] > self.since(s)): return None
      itp.check("waits only while nothing is there and the end has not come", z3.And(self.n() == 0, z3.Not(self.closed())))
      itp.yield_point("future")
    A[("future", "__await__")] = sleep
  def since(self, f):
    for t, e in self.itp.st.ghost["futs"]:
      if t.eq(f.t): return e
    raise Unsupported("future of something else")
  def old_future(self):
    f = self.itp.fresh("future", ANY("future")); e = self.itp.fresh_const("since", z3.IntSort()); self.itp.assume(e <= self.itp.st.ghost["epoch"])
    self.itp.st.ghost["futs"] = self.itp.st.ghost["futs"] + ((f.t, e),); return f
  def q(self): return self.itp.to_term(self.itp.getattr(self.o, "_queue"), Q)
  def n(self): return l_len(Q, self.q())
  def closed(self): return self.itp.to_term(self.itp.getattr(self.o, "_closed"), BOOL)
  def state(self): return self.q(), self.closed()
  def scramble(self, first=False):
    """any puts, closing and takes by others; every one but a take triggers"""
    itp = self.itp
    c0 = None if first else self.closed()
    q = itp.fresh_const("queue", sort(Q)); c = itp.fresh_const("closed", z3.BoolSort()); e = itp.fresh_const("epoch", z3.IntSort())
    itp.assume(l_len(Q, q) >= 0)
    if not first: itp.assume(z3.And(z3.Implies(c0, c), e >= itp.st.ghost["epoch"]))
    itp.setattr(self.o, "_queue", itp.new_cont("list", Q, q)); itp.setattr(self.o, "_closed", Sym(c, BOOL))
    itp.st.ghost["epoch"] = e

def s_get(itp):
  c = Cons(itp); g = itp.st.ghost
  ended = [itp.fresh_const("ended", z3.BoolSort())]
  g["taken"] = (); g["end"] = z3.BoolVal(False); g["at"] = c.state()
  def segment():
    """what the call itself did since others ran last"""
    q0, c0 = itp.st.ghost["at"]; q1, c1 = c.state()
    i = itp.fresh_const("i", z3.IntSort())
    unchanged = z3.And(l_len(Q, q0) == l_len(Q, q1), z3.Implies(z3.And(i >= 0, i < l_len(Q, q1)), sel(l_arr(Q, q0), i) == sel(l_arr(Q, q1), i)))
    if q0.eq(q1) or itp.decide(l_len(Q, q0) == l_len(Q, q1)): itp.check("get: leaves the waiting messages as they are", unchanged)
    else:
      itp.check("get: takes only the oldest message", z3.And(l_len(Q, q1) == l_len(Q, q0) - 1, z3.Implies(z3.And(i >= 0, i < l_len(Q, q1)), sel(l_arr(Q, q1), i) == sel(l_arr(Q, q0), i + 1))))
      itp.st.ghost["taken"] = itp.st.ghost["taken"] + (sel(l_arr(Q, q0), 0),)
    itp.check("get: does not end the consumer", c0 == c1)
    itp.st.ghost["end"] = z3.Or(itp.st.ghost["end"], z3.And(l_len(Q, q0) == 0, z3.Or(c0, ended[0])))
  def hook(itp_, why):
    segment(); c.scramble(); itp.st.ghost["at"] = c.state()
  itp.yield_hook = hook
  def enter(itp_, s, a, k):
    def th():
      if itp.decide(ended[0]): itp.raise_py(EOFError)
      itp.yield_point("producer")
      ended[0] = itp.fresh_const("ended", z3.BoolSort())
      itp.st.ghost["inside"] = True
    return th()
  def leave(itp_, s, a, k):
    def th(): itp.st.ghost["inside"] = False; itp.yield_point("producer")
    return th()
  itp.any_methods[("producer", "__aenter__")], itp.any_methods[("producer", "__aexit__")] = enter, leave
  g["inside"] = False
  futures = itp.any_methods[("future", "__await__")]
  def sleep(*a):
    itp.check("get: the producer is in use while one waits", itp.st.ghost["inside"])
    return futures(*a)
  itp.any_methods[("future", "__await__")] = sleep
  class Rule:
    @staticmethod
    def locals(itp, d): return {n: c.old_future() for n, v in d.items() if isinstance(itp.deref(v), Sym) and itp.deref(v).ty == ANY("future")} or None
    @staticmethod
    def before(itp): itp.yield_hook(itp, "loop")
    @staticmethod
    def after(itp): segment()
  itp.event_rule = Rule
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(c.o, "get"), [])))
  segment()
  itp.check("get: leaves the producer again", not itp.st.ghost["inside"])
  T = itp.st.ghost["taken"]
  if st == "ok":
    itp.check("get: gives the message it took, and only that", len(T) == 1 and isinstance(itp.deref(r), Sym) and itp.deref(r).ty == MSGT and itp.to_term(r, MSGT) == T[0])
  else:
    itp.check("get: ends only with EOFError", exc_is(itp, r, EOFError))
    itp.check("get: loses no message when it ends", len(T) == 0)
    itp.check("get: tells the end only when nothing is left", itp.st.ghost["end"])

def s_put(itp):
  c = Cons(itp); q0, c0 = c.state()
  m = itp.fresh("message", MSGT); ok = itp.fresh("accepted", BOOL)
  default = itp.choose(2)
  itp.models.pop(CONS + ".test_message", None)
  if not default: itp.models[CONS + ".test_message"] = lambda itp_, a, k: ok
  st, r = attempt(itp, lambda: itp.call(itp.getattr(c.o, "put"), [m]))
  q1, c1 = c.state(); i = itp.fresh_const("i", z3.IntSort())
  acc = z3.BoolVal(True) if default else ok.t
  itp.check("put: never fails", st == "ok")
  itp.check("put: exactly the accepted messages are queued", l_len(Q, q1) == l_len(Q, q0) + z3.If(acc, 1, 0))
  itp.check("put: behind those already there", z3.Implies(z3.And(i >= 0, i < l_len(Q, q1)), sel(l_arr(Q, q1), i) == z3.If(i < l_len(Q, q0), sel(l_arr(Q, q0), i), m.t)))
  itp.check("put: does not end the consumer", c0 == c1)
  told = itp.st.ghost.get("told")
  itp.check("put: waiting consumers are told", z3.Implies(acc, z3.BoolVal(told is not None) if told is None else l_len(Q, told[0]) == l_len(Q, q1)))
def s_cclose(itp):
  c = Cons(itp); q0, c0 = c.state()
  st, r = attempt(itp, lambda: itp.call(itp.getattr(c.o, "close"), []))
  q1, c1 = c.state(); i = itp.fresh_const("i", z3.IntSort())
  itp.check("close: ends the consumer", z3.BoolVal(False) if st != "ok" else c1)
  itp.check("close: keeps what was sent before", z3.And(l_len(Q, q1) == l_len(Q, q0), z3.Implies(z3.And(i >= 0, i < l_len(Q, q1)), sel(l_arr(Q, q1), i) == sel(l_arr(Q, q0), i))))
  told = itp.st.ghost.get("told")
  itp.check("close: waiting consumers are told", z3.BoolVal(False) if told is None else told[1])

# ------------------------------------------------------------------ producer
OUT = ["ended", "cancelled", "returned"]
class Prod:
  """a producer in any state nobody is changing: entered by `count`, running iff entered"""
  def __init__(self, itp, cls=PROD, free=True):
    self.itp = itp; self.cls = cls
    g = itp.st.ghost
    self.c0 = itp.fresh_const("consumers", sort(SET(CR)))
    self.running = itp.choose(2) == 1
    self.task = itp.fresh("task", ANY("task")) if self.running else None
    self.count = itp.fresh_const("count", z3.IntSort()); itp.assume(self.count >= 1 if self.running else self.count == 0)
    self.ended = itp.fresh_const("ended", z3.BoolSort())
    f = {"_task": self.task, "_entered_count": Sym(self.count, INT), "_consumers": itp.new_cont("set", SET(CR), self.c0), "_enter_lock": itp.fresh("enter", ANY("elock")), "_ended": Sym(self.ended, BOOL)}
    if cls == MPP:
      self.ran = self.running or itp.choose(2) == 1
      f.update(stop_event=itp.fresh("stop", ANY("stop")), _lock=itp.fresh("inner", ANY("ilock")), _loop=itp.fresh("loop", ANY("loop")) if self.ran else None)
    self.o = itp.new_obj(itp.cls_by_qual(cls), f)
    g["closed"] = z3.K(sort(CR), z3.IntVal(0)); g["put"] = z3.K(sort(CR), z3.IntVal(0))
    g["started"], g["stopped"], g["waited"], g["held"], g["done"], g["inner"] = (), (), (), False, {}, False
    A = itp.any_methods
    def cclose(itp_, a, k): h = itp.st.ghost["closed"]; x = itp.to_term(a[0], CR); itp.st.ghost["closed"] = z3.Store(h, x, sel(h, x) + 1)
    def cput(itp_, a, k):
      h = itp.st.ghost["put"]; x = itp.to_term(a[0], CR); itp.st.ghost["put"] = z3.Store(h, x, sel(h, x) + 1)
      itp.st.ghost["msgs"] = itp.st.ghost.get("msgs", ()) + (a[1],)
    itp.models[CONS + ".close"], itp.models[CONS + ".put"] = cclose, cput
    def create(itp_, a, k):
      t = itp.fresh("task", ANY("task")); itp.st.ghost["started"] = itp.st.ghost["started"] + (t.t,); itp.st.ghost["body"] = a[0]; return t
    itp.ext_models["asyncio.create_task"] = itp.ext_models["asyncio.ensure_future"] = create
    def cancel(itp_, s, a, k): itp.st.ghost["stopped"] = itp.st.ghost["stopped"] + (s.t,); return True
    def stop(itp_, s, a, k): itp.st.ghost["stopped"] = itp.st.ghost["stopped"] + ("event",)
    A[("task", "cancel")], A[("stop", "set")] = cancel, stop
    A[("task", "done")] = lambda itp_, s, a, k: itp.fresh("done", BOOL)
    A[("stop", "clear")] = lambda itp_, s, a, k: itp.st.ghost.__setitem__("cleared", True)
    def await_task(itp_, s, a, k):
      itp.yield_point("task")
      itp.st.ghost["waited"] = itp.st.ghost["waited"] + (s.t,)
      k_ = itp.choose(3)
      if k_ == 0: itp.raise_py(EOFError)
      if k_ == 1: itp.raise_py(asyncio.CancelledError)
    A[("task", "__await__")] = await_task
    def lock(itp_, s, a, k):
      def th(): itp.yield_point("lock"); itp.st.ghost["held"] = True
      return th()
    def unlock(itp_, s, a, k):
      def th(): itp.st.ghost["held"] = False; itp.st.ghost["after"] = self.now()
      return th()
    A[("elock", "__aenter__")], A[("elock", "__aexit__")] = lock, unlock
    def ilock(itp_, s, a, k):
      def th(): itp.yield_point("inner"); itp.st.ghost["inner"] = True; itp.st.ghost["inner_locked"] = itp.st.ghost.get("inner_locked", 0) + 1
      return CoroV(th)
    def iunlock(itp_, s, a, k): itp.st.ghost["inner"] = False
    A[("ilock", "acquire")] = ilock
    A[("ilock", "__aenter__")] = lambda itp_, s, a, k: itp.await_(ilock(itp_, s, a, k))
    A[("ilock", "release")] = iunlock
    A[("ilock", "__aexit__")] = iunlock
    A[("loop", "call_soon_threadsafe")] = lambda itp_, s, a, k: itp.st.ghost.__setitem__("soon", itp.st.ghost.get("soon", ()) + (tuple(a),))
    def hook(itp_, why):
      if not itp.st.ghost["held"] and not itp.st.ghost.get("closing"): self.scramble()
      else:   # whoever does not hold the lock can only close it
        e = itp.fresh_const("ended", z3.BoolSort()); itp.assume(z3.Implies(self.is_ended(), e)); itp.setattr(self.o, "_ended", Sym(e, BOOL))
    itp.yield_hook = hook
    def hint(lc):
      if lc.seg is None or lc.seg.kind != "set" or not (lc.seg.bty.kind == "ref"): return []
      x = z3.Const("x!co", sort(CR)); out = []
      for n in ("closed", "put"):
        g1 = lambda n=n: itp.st.ghost[n]
        g0 = lambda n=n: lc.in_pre(lambda: itp.st.ghost[n])
        out.append((n + " each", lambda D, g1=g1, g0=g0: M.mk_forall([x], sel(g1(), x) == sel(g0(), x) + z3.If(D(x), 1, 0), [[sel(g1(), x)], [D(x)]])))
        out.append((n + " none", lambda D, g1=g1, g0=g0: M.mk_forall([x], sel(g1(), x) == sel(g0(), x), [[sel(g1(), x)]])))
      return out
    itp.loop_hints.append(hint)
  def is_ended(self): return self.itp.to_term(self.itp.getattr(self.o, "_ended"), BOOL)
  def scramble(self, count_min=0):
    """the lock is free: any number of others entered, left and closed meanwhile"""
    itp = self.itp; m = itp.st.ghost.get("own", 0)
    run = True if m else itp.choose(2) == 1
    self.running = run
    self.task = itp.fresh("task", ANY("task")) if run else None
    self.count = itp.fresh_const("count", z3.IntSort()); itp.assume(self.count >= max(1, m) if run else self.count == 0)
    e = itp.fresh_const("ended", z3.BoolSort()); itp.assume(z3.Implies(self.is_ended(), e))
    itp.setattr(self.o, "_ended", Sym(e, BOOL)); itp.setattr(self.o, "_task", self.task); itp.setattr(self.o, "_entered_count", Sym(self.count, INT))
  def now(self): return itp_task(self.itp, self.itp.getattr(self.o, "_task")), self.itp.to_term(self.itp.getattr(self.o, "_entered_count"), INT), self.is_ended()
  def call(self, m, *a): return attempt(self.itp, lambda: self.itp.await_(self.itp.call(self.itp.getattr(self.o, m), list(a))))
  def all_closed(self):
    x = self.itp.fresh_const("consumer", sort(CR))
    return z3.Implies(sel(self.c0, x), sel(self.itp.st.ghost["closed"], x) >= 1)
def itp_task(itp, v):
  v = itp.deref(v)
  return None if v is None else v.t
def only_tasks(xs): return [x for x in xs if not isinstance(x, str)]
def stops(p, t):
  """the way this kind of producer stops its run t"""
  s = p.itp.st.ghost["stopped"]
  return (any(x == "event" for x in s if isinstance(x, str)) or any(x.eq(t) for x in only_tasks(s))) if p.cls == MPP else any(x.eq(t) for x in only_tasks(s))
def name(p): return "mp " if p.cls == MPP else ""

def s_enter(cls):
  def s(itp):
    p = Prod(itp, cls); e0 = p.ended; t0 = p.now()
    st, r = p.call("__aenter__"); w = name(p) + "entering"
    g = itp.st.ghost
    if st != "ok":
      itp.check(f"{w}: fails only with EOFError, when it has ended", z3.And(z3.BoolVal(exc_is(itp, r, EOFError)), e0))
      itp.check(f"{w}: failing changes nothing", not g["started"] and not g["stopped"])
      return
    itp.check(f"{w}: an ended producer is not entered", z3.Not(e0))
    a = g.get("after")
    itp.check(f"{w}: is counted once", z3.BoolVal(False) if a is None else a[1] == p.count + 1)
    if p.running: itp.check(f"{w}: the run there is shared", not g["started"] and a is not None and a[0] is not None and a[0].eq(p.task.t))
    else: itp.check(f"{w}: the first to enter starts one run", len(g["started"]) == 1 and a is not None and a[0] is not None and a[0].eq(g["started"][0]))
    itp.check(f"{w}: stops nothing", not g["stopped"])
  return s
def s_leave(cls):
  def s(itp):
    p = Prod(itp, cls)
    if not p.running: raise PathEnd()
    itp.st.ghost["own"] = 1
    st, r = p.call("__aexit__", None, None, None); w = name(p) + "leaving"
    g = itp.st.ghost; a = g.get("after")
    itp.check(f"{w}: never fails", st == "ok")
    itp.check(f"{w}: is counted once", z3.BoolVal(False) if a is None else a[1] == p.count - 1)
    if a is None: return
    t = p.task.t
    done = stops(p, t) and any(x.eq(t) for x in g["waited"])
    itp.check(f"{w}: the last one to leave stops the run and waits for it", z3.Implies(p.count == 1, z3.BoolVal(done and a[0] is None)))
    if cls == MPP: itp.check(f"{w}: and for its thread", z3.Implies(p.count == 1, z3.BoolVal(g.get("inner_locked", 0) >= 1 and not g["inner"])))
    itp.check(f"{w}: for the others it goes on", z3.Implies(p.count > 1, z3.BoolVal(not g["stopped"] and a[0] is not None and a[0].eq(t))))
    itp.check(f"{w}: starts nothing", not g["started"])
  return s
def soon(itp):
  """run what was handed to the event loop"""
  for fn, *a in itp.st.ghost.get("soon", ()): itp.call(fn, a)
def s_close(cls):
  def s(itp):
    p = Prod(itp, cls); itp.st.ghost["closing"] = True
    t = p.task
    st, r = p.call("close"); w = name(p) + "closing"
    soon(itp); g = itp.st.ghost
    itp.check(f"{w}: never fails", st == "ok")
    itp.check(f"{w}: it has ended", p.is_ended())
    itp.check(f"{w}: all its consumers learn of the end", p.all_closed())
    if t is not None: itp.check(f"{w}: the run is stopped and waited for", stops(p, t.t) and any(x.eq(t.t) for x in g["waited"]))
    itp.check(f"{w}: starts nothing", not g["started"])
  return s
def s_run(cls):
  def s(itp):
    p = Prod(itp, cls); e0 = p.ended; w = name(p) + "running"
    k = itp.choose(4); runs = []
    def run(itp_, a, kw):
      runs.append(1)
      e1 = p.is_ended()
      if k == 0: itp.raise_py(EOFError)
      if k == 1: itp.raise_py(asyncio.CancelledError)
      if k == 2: itp.raise_py(RuntimeError)
    itp.models[cls + ".run"] = run
    if cls == MPP and not p.ran: itp.setattr(p.o, "_loop", itp.fresh("loop", ANY("loop")))
    st, r = p.call("_run"); soon(itp)
    x = itp.fresh_const("consumer", sort(CR)); none = sel(itp.st.ghost["closed"], x) == 0
    itp.check(f"{w}: an ended producer does not run", z3.Implies(e0, z3.BoolVal(len(runs) == 0)))
    itp.check(f"{w}: otherwise it runs once", z3.Implies(z3.Not(e0), z3.BoolVal(len(runs) == 1)))
    end = z3.Or(e0, z3.BoolVal(k == 0))
    itp.check(f"{w}: when it ends its consumers learn of it", z3.Implies(end, z3.And(p.is_ended(), p.all_closed())))
    itp.check(f"{w}: stopping it is not its end", z3.Implies(z3.Not(end), z3.And(none, p.is_ended() == e0)))
    itp.check(f"{w}: fails only as the run does", st == "ok" or exc_is(itp, r, EOFError) or k == 2 and exc_is(itp, r, RuntimeError))
  return s
def s_send(cls):
  def s(itp):
    p = Prod(itp, cls); m = itp.fresh("message", MSGT)
    if cls == MPP and not p.ran: raise PathEnd()
    st, r = attempt(itp, lambda: itp.call(itp.getattr(p.o, "send_message"), [m]))
    w = name(p) + "sending"
    if cls == MPP: itp.check("mp sending: hands over to the event loop, in order", len(itp.st.ghost.get("soon", ())) == 1 and not itp.st.ghost.get("msgs")); soon(itp)
    x = itp.fresh_const("consumer", sort(CR))
    itp.check(f"{w}: never fails", st == "ok")
    itp.check(f"{w}: every consumer registered gets it once, nobody else", sel(itp.st.ghost["put"], x) == z3.If(sel(p.c0, x), 1, 0))
    itp.check(f"{w}: as it is", all(itp.deref(y) == itp.deref(m) for y in itp.st.ghost.get("msgs", ())))
  return s
def s_register(itp):
  itp.ref_fields[(CONS, "_producer")] = REF(PROD); itp.ref_fields[(PROD, "_consumers")] = SET(CR)
  me, x = itp.fresh_const("me", sort(CR)), itp.fresh_const("x", sort(CR))
  pr = itp.fld_get(CONS, "_producer", me)
  s0 = itp.fld_get(PROD, "_consumers", pr)
  out = itp.choose(2)
  st, r = attempt(itp, lambda: itp.call(itp.getattr(Sym(me, CR), "unregister" if out else "register"), []))
  s1 = itp.fld_get(PROD, "_consumers", pr)
  if out:
    itp.check("unregister: takes the consumer from its producer", z3.BoolVal(False) if st != "ok" and itp.decide(sel(s0, me)) else sel(s1, x) == z3.And(sel(s0, x), x != me))
  else: itp.check("register: adds the consumer to its producer", z3.BoolVal(False) if st != "ok" else sel(s1, x) == z3.Or(sel(s0, x), x == me))

FUT = ANY("afuture"); FS_ = LIST(FUT)
def trigger(itp):
  g = itp.st.ghost
  g["donef"] = itp.fresh_const("done", z3.ArraySort(sort(FUT), z3.BoolSort()))
  l = itp.fresh_const("waiting", sort(FS_)); itp.assume(l_len(FS_, l) >= 0)
  o = itp.new_obj(itp.cls_by_qual(U + ":AsyncTrigger"), {"_futs": itp.new_cont("list", FS_, l)})
  A = itp.any_methods
  A[("afuture", "done")] = lambda itp_, s, a, k: Sym(sel(itp.st.ghost["donef"], s.t), BOOL)
  def finish(itp_, s, a, k):
    if itp.decide(sel(itp.st.ghost["donef"], s.t)): itp.raise_py(asyncio.InvalidStateError, "twice")
    itp.st.ghost["donef"] = z3.Store(itp.st.ghost["donef"], s.t, True)
  A[("afuture", "set_result")] = finish
  def new(itp_, a, k):
    f = itp.fresh("future", FUT)
    i = z3.Int("i!f"); itp.assume(M.mk_forall([i], sel(l_arr(FS_, l), i) != f.t, [[sel(l_arr(FS_, l), i)]]))
    itp.st.ghost["donef"] = z3.Store(itp.st.ghost["donef"], f.t, False); return f
  itp.ext_models["asyncio.Future"] = new
  return o, l
def now_futs(itp, o): return itp.to_term(itp.getattr(o, "_futs"), FS_)
def s_wait(itp):
  o, l = trigger(itp)
  st, f = attempt(itp, lambda: itp.call(itp.getattr(o, "wait"), []))
  f = itp.deref(f)
  itp.check("trigger: waiting gives a new future", st == "ok" and isinstance(f, Sym) and f.ty == FUT)
  l1 = now_futs(itp, o); i = itp.fresh_const("i", z3.IntSort())
  itp.check("trigger: which is not done", z3.Not(sel(itp.st.ghost["donef"], f.t)))
  itp.check("trigger: and waits behind the others", z3.And(l_len(FS_, l1) == l_len(FS_, l) + 1, sel(l_arr(FS_, l1), l_len(FS_, l)) == f.t, z3.Implies(z3.And(i >= 0, i < l_len(FS_, l)), sel(l_arr(FS_, l1), i) == sel(l_arr(FS_, l), i))))
def s_trigger(itp):
  o, l = trigger(itp); d0 = itp.st.ghost["donef"]
  i = z3.Int("i!t"); f = z3.Const("f!t", sort(FUT))
  d = lambda: itp.st.ghost["donef"]
  def hint(lc):
    if lc.seg is None: return []
    return [("done so far", lambda D: M.mk_forall([i], z3.Implies(z3.And(i >= 0, i < l_len(FS_, l), D(i)), sel(d(), sel(l_arr(FS_, l), i))), [[sel(l_arr(FS_, l), i)]])),
      ("stay done", lambda D: M.mk_forall([f], z3.Implies(sel(d0, f), sel(d(), f)), [[sel(d(), f)]])) ]
  itp.loop_hints.append(hint)
  st, r = attempt(itp, lambda: itp.call(itp.getattr(o, "trigger"), []))
  k = itp.fresh_const("i", z3.IntSort())
  itp.check("trigger: never fails", st == "ok")
  itp.check("trigger: wakes every waiter", z3.Implies(z3.And(k >= 0, k < l_len(FS_, l)), sel(d(), sel(l_arr(FS_, l), k))))
  itp.check("trigger: nobody waits any more", l_len(FS_, now_futs(itp, o)) == 0)
def s_mp_run(itp):
  p = Prod(itp, MPP)
  k = itp.choose(3); seen = []
  def shield(itp_, a, kw):
    def th():
      if k == 1: itp.raise_py(asyncio.CancelledError)
      return itp.await_(a[0])
    return CoroV(th)
  itp.ext_models["asyncio.shield"] = shield
  itp.ext_models["asyncio.get_running_loop"] = lambda itp_, a, kw: itp.fresh("loop", ANY("loop"))
  def execute(itp_, s, a, kw):
    def th():
      seen.append(1)
      itp.check("mp run: one thread at a time", itp.st.ghost["inner"])
      itp.check("mp run: the event loop is known to the thread", itp.deref(itp.getattr(p.o, "_loop")) is not None)
      itp.check("mp run: outside the event loop", a[0] is None)
      itp.call(a[1], list(a[2:]))
    return CoroV(th)
  itp.any_methods[("loop", "run_in_executor")] = execute
  ran = []
  def sync(itp_, a, kw):
    ran.append(1)
    if k == 2: itp.raise_py(EOFError)
  itp.models[MPP + ".run_sync"] = sync
  st, r = p.call("run"); g = itp.st.ghost
  if k == 1:
    itp.check("mp run: a cancelled run tells its thread to stop", any(isinstance(x, str) for x in g["stopped"]))
    return
  itp.check("mp run: the thread runs once", len(ran) == 1)
  itp.check("mp run: the end is passed on", (st != "ok" and exc_is(itp, r, EOFError)) if k == 2 else st == "ok")
  itp.check("mp run: the request to stop is taken back", g.get("cleared") is True and not g["inner"])

C = lambda *n: [CONS + "." + x for x in n]
P = lambda *n: [PROD + "." + x for x in n]
MPN = lambda *n: [MPP + "." + x for x in n]
SCENARIOS = [Scn("get", s_get, C("get")), Scn("put", s_put, C("put", "test_message")), Scn("the consumer's close", s_cclose, C("close")),
  Scn("registering", s_register, C("register", "unregister")), Scn("waiting for a trigger", s_wait, [U + ":AsyncTrigger.wait"]), Scn("triggering", s_trigger, [U + ":AsyncTrigger.trigger"]),
  Scn("entering", s_enter(PROD), P("__aenter__", "wait_done")), Scn("leaving", s_leave(PROD), P("__aexit__", "_stop", "wait_done")), Scn("closing", s_close(PROD), P("close", "_on_ended", "close_consumers", "_stop", "wait_done")),
  Scn("running", s_run(PROD), P("_run", "_on_ended", "close_consumers")), Scn("sending", s_send(PROD), P("send_message")),
  Scn("entering (threads)", s_enter(MPP), P("__aenter__") + MPN("wait_done")), Scn("leaving (threads)", s_leave(MPP), P("__aexit__") + MPN("_stop", "wait_done")), Scn("closing (threads)", s_close(MPP), P("close", "_on_ended") + MPN("close_consumers", "_stop", "wait_done")),
  Scn("running (threads)", s_run(MPP), P("_run", "_on_ended") + MPN("close_consumers")), Scn("sending (threads)", s_send(MPP), MPN("send_message")), Scn("the thread", s_mp_run, MPN("run", "_shielded_run"))]
ASSUMPTIONS = ["a run ends by EOFError, by being cancelled or by returning; another error of it is passed on to whoever waits for it", "get is not cancelled after it took its message", "asyncio.Lock excludes, and a cancelled task ends", "call_soon_threadsafe runs what it is given in the order given, on the event loop", "test_message does not raise", "users leave as often as they entered", "a future that is not done wakes its waiter once it is"]
