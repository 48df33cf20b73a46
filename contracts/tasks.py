"""receive loops of tasks: an arbitrary message or control arrives on an in-topic (P01, P13), what is sent on out-topics is recorded. One iteration of
the loop from an arbitrary state."""
from contracts.serve import *
MSGS = "streamtasks.net.messages"
MT = "streamtasks.message.types"

class Topics:
  def __init__(self, itp):
    self.itp = itp
    itp.st.ghost["sent"] = (); itp.st.ghost["out"] = (); itp.st.ghost["last"] = None; itp.st.ghost["msg"] = None
    itp.assumptions.add("sending on an out-topic hands the message to the client's own queue and does not suspend")
    am = itp.any_methods
    def kind(n):
      def f(itp_, s, a, k):
        c = a[0]
        return (getattr(c, "name", None) or getattr(c, "path", "")).split(".")[-1] == n
      return f
    am[("rawmsg", "__isinstance__")] = kind("RawData")
    itp.attr_models[("rawmsg", "data")] = lambda itp_, s: Sym(z3.Const("body_of_message", sort(ANY("payload"))), ANY("payload"))
    def arrive(controls):
      def f(itp_, s, a, k):
        def th():
          itp.st.ghost["src"] = s
          if controls and itp.choose(2):
            p = itp.fresh("paused", BOOL)
            c = itp.new_obj(itp.cls_by_qual(MSGS + ":TopicControlData"), {"paused": p})
            itp.st.ghost["last"] = ("control", c, p)
            return c
          d = itp.fresh("message", ANY("rawmsg"))
          itp.st.ghost["last"] = ("data", d, None)
          return d
        return CoroV(th)
      return f
    am[("intopic", "recv_data_control")] = arrive(True); am[("intopic", "recv_data")] = arrive(False)
    def log(what):
      def f(itp_, s, a, k):
        def th(): itp.st.ghost["out"] = itp.st.ghost["out"] + ((what, s, itp.resolve(a[0])),)
        return CoroV(th)
      return f
    am[("outtopic", "send")] = log("send"); am[("outtopic", "set_paused")] = log("pause")
    # decoding of a message body: refused or well-typed
    def validate(itp_, cls, body):
      itp.check("it is the message received that is decoded", itp.st.ghost["last"] is not None and itp.bz(itp.eq(itp.resolve(body), Sym(z3.Const("body_of_message", sort(ANY("payload"))), ANY("payload")))))
      if itp.choose(2): itp.st.ghost["msg"] = ("bad", None, None); itp.raise_py(VE, "invalid")
      o = arbitrary(itp, cls, "message.")
      itp.st.ghost["msg"] = ("ok", o, cls.name)
      return o
    itp.decode_any = validate
    itp.assumptions.add("pydantic: model_validate refuses a body with ValidationError or yields well-typed fields; model_dump gives the fields")
  def topic(self, n="in"): return self.itp.fresh(n, ANY("intopic"))
  def out(self, n="out"): return self.itp.fresh(n, ANY("outtopic"))
  def sent(self): return [x for x in self.itp.st.ghost["out"] if x[0] == "send"]
  def pauses(self): return [x for x in self.itp.st.ghost["out"] if x[0] == "pause"]
  def body(self, d):
    """fields of a message sent as RawData(dict), else None"""
    itp = self.itp; d = itp.deref(d)
    if not isinstance(d, ObjRef) or itp.class_of(d).name != "RawData": return None
    x = itp.deref(itp.getattr(d, "data"))
    if isinstance(x, LocRef): 
      c = itp.content(x)
      return dict(c.d) if hasattr(c, "d") else None
    return None
  def number(self, d, ts, value):
    """formula: d is a number message with this time and value"""
    itp = self.itp; b = self.body(d)
    if b is None or set(b) != {"timestamp", "value"}: return z3.BoolVal(False)
    v = itp.resolve(b["value"])
    return z3.And(itp.bz(itp.eq(b["timestamp"], ts)), real(itp, v) == value)
  def iteration(self, run, after, before=None, locals_=None):
    itp = self.itp
    class Rule:
      @staticmethod
      def before(itp):
        if before: before()
        itp.st.ghost["iter"] = True
      @staticmethod
      def after(itp): after()
    if locals_: Rule.locals = staticmethod(lambda itp, d: locals_(d))
    itp.event_rule = Rule
    st, r = attempt(itp, run)
    itp.check("the task keeps running", False)
    return st, r
  # ---- run(): the topics are opened and registered, the client started, the loops run together
  def loops(self, o, want=None):
    """executes o.run() up to the point where its loops run -> one entry per loop: (what it first waits for, coroutine)"""
    itp = self.itp; am = itp.any_methods
    class Here(BaseException): pass
    class Stop(BaseException): pass
    itp.st.ghost["open"] = ()
    def mark(what): 
      def f(itp_, s, a, k): itp.st.ghost["open"] = itp.st.ghost["open"] + ((what, s),); return s
      return f
    for q in ("intopic", "outtopic"):
      am[(q, "__aenter__")] = mark("open"); am[(q, "__aexit__")] = lambda itp_, s, a, k: None
      am[(q, "start")] = lambda itp_, s, a, k: CoroV(lambda: mark("open")(itp_, s, a, k))
      am[(q, "stop")] = lambda itp_, s, a, k: CoroV(lambda: None)
      am[(q, "RegisterContext")] = lambda itp_, s, a, k: itp.new_obj(itp.cls_by_qual("streamtasks.client.topic:_TopicRegisterContext"), {"_topic_obj": s})
      def reg(itp_, s, a, k):
        def th():
          if itp.truth(a[0]): mark("registered")(itp_, s, a, k)
        return CoroV(th)
      am[(q, "set_registered")] = reg
    am[("client", "start")] = lambda itp_, s, a, k: mark("started")(itp_, s, a, k) and None
    found = []
    def gather(itp_, a, k):
      def th(): found.extend(a); raise Here()
      return CoroV(th)
    itp.ext_models["asyncio.gather"] = gather
    try:
      itp.await_(itp.call(itp.getattr(o, "run"), []))
      itp.check("the task runs its loops", False)
      raise PathEnd()
    except Here: pass
    got = itp.st.ghost["open"]
    itp.check("the client is started", any(w == "started" for w, _ in got))
    keep = {k: am.get(("intopic", k)) for k in ("recv_data", "recv_data_control")}
    first = []
    def stop(what):
      def f(itp_, s, a, k):
        def th(): first.append((what, s)); raise Stop()
        return CoroV(th)
      return f
    out = []
    for c in found:
      saved = itp.st; itp.st = saved.copy()
      am[("intopic", "recv_data")] = am[("intopic", "recv_data_control")] = stop("recv")
      kw, km = am.get(("trigger", "wait")), am.get(("msgtrigger", "wait"))
      ew = itp.ext_models.get("asyncio.wait_for")
      am[("trigger", "wait")] = stop("change"); am[("msgtrigger", "wait")] = stop("msg")
      itp.ext_models["asyncio.wait_for"] = lambda itp_, a, k: CoroV(lambda: itp.await_(a[0]))
      first.clear()
      class Free:
        after = staticmethod(lambda itp: None)
        locals = staticmethod(lambda itp, d: d)
      rule = getattr(itp, "event_rule", None); itp.event_rule = Free
      try: itp.await_(c)
      except Stop: pass
      finally:
        itp.st = saved; itp.event_rule = rule
        for k, f in keep.items(): am[("intopic", k)] = f
        if kw: am[("trigger", "wait")] = kw
        else: am.pop(("trigger", "wait"), None)
        if km: am[("msgtrigger", "wait")] = km
        else: am.pop(("msgtrigger", "wait"), None)
        if ew: itp.ext_models["asyncio.wait_for"] = ew
        else: itp.ext_models.pop("asyncio.wait_for", None)
      out.append((first[0] if first else None, c))
    return out, got
  def opened(self, got, topics):
    for t, n in topics:
      for w in ("open", "registered"):
        hits = [s for x, s in got if x == w and s.ty == t.ty]
        self.itp.check(f"the {n} is {w}", z3.Or(*[s.t == t.t for s in hits]) if hits else False)
  def reader(self, out, t, n):
    """the loop that receives from t"""
    m = [c for f, c in out if f is not None and f[0] == "recv" and self.itp.decide(f[1].t == t.t)]
    self.itp.check(f"one loop receives from the {n}", len(m) == 1)
    if len(m) != 1: raise PathEnd()
    return m[0]
  def waiter(self, out, what, n):
    m = [c for f, c in out if f is not None and f[0] == what]
    self.itp.check(f"one loop {n}", len(m) == 1)
    if len(m) != 1: raise PathEnd()
    return m[0]
def real(itp, v):
  if isinstance(v, bool): return z3.RealVal(1 if v else 0)
  if isinstance(v, Sym) and v.ty is BOOL: return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
  return itp.to_term(v, REAL)
