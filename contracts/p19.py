"""P19: the task manager's table of tasks and hosts, every handler from an arbitrary table; other handlers run wherever one waits."""
import asyncio
from contracts.net import *
from contracts.serve import *

T = "streamtasks.system.task"
TM, TH, TI, REG = T + ":TaskManager", T + ":TaskHost", T + ":TaskInstance", T + ":TaskHostRegistration"
ST = ENUM(T + ":TaskStatus", "scheduled", "running", "stopped", "ended", "failed")
I_ = REF(TI); TAB = MAP(STR, I_); META = ANY("meta"); CONF = ANY("payload")
HOST = REC(REG, id=STR, address=INT, metadata=META); HOSTS = MAP(STR, HOST)
SP, ERR = OPT(INT), OPT(STR)
FIELDS = {"id": STR, "host_id": STR, "topic_space_id": SP, "metadata": META, "error": ERR, "status": ST}
NO_META = z3.Const("no_metadata", sort(META))
def inject(itp, v):
  """metadata is opaque, except for none at all"""
  c = itp.content(v) if isinstance(v, LocRef) else None
  if isinstance(c, PyDictC) and not c.d: return NO_META
  raise Unsupported("metadata other than given")
def stat(itp, n): return enum_const(ST, n)

class State:
  """what the tables hold at one moment"""
  def __init__(self, w):
    self.w = w; itp = w.itp
    self.t, self.h = itp.to_term(itp.getattr(w.o, "tasks"), TAB), itp.to_term(itp.getattr(w.o, "task_hosts"), HOSTS)
    self.f = {n: itp.fld_arr(TI, n) for n in FIELDS}
  def has(self, k): return sel(m_dom(TAB, self.t), k)
  def field(self, n, k): return z3.Select(self.f[n], sel(m_val(TAB, self.t), k))
  def same(self, other, k, but=()): return z3.And(*[self.field(n, k) == other.field(n, k) for n in FIELDS if n not in but])
  def host(self, h): return sel(m_dom(HOSTS, self.h), h)
  def reg(self, h): return sel(m_val(HOSTS, self.h), h)

class World:
  def __init__(self, itp):
    self.itp = itp; setup(itp)
    itp.enum_types[T + ":TaskStatus"] = ST
    for n, ty in FIELDS.items(): itp.ref_fields[(TI, n)] = ty
    itp.ref_fields[(TI, "$alloc")] = BOOL
    itp.rec_types[REG] = HOST
    itp.any_inject = {**getattr(itp, "any_inject", {}), "meta": inject}
    self.memo = []
    decoding(itp, memo=self.memo)
    g = itp.st.ghost
    g["field:TaskReport.status"] = Sym(itp.fresh_const("reported", sort(ST)), ST)
    for c in ("TMTaskStartRequest", "TaskStartRequest"): g[f"field:{c}.config"] = itp.fresh("config", CONF)
    for c in ("TaskStartResponse", "TaskHostRegistration"): g[f"field:{c}.metadata"] = itp.fresh("metadata", META)
    for n in ("gc.collect", "traceback.format_exc", "logging.debug"): itp.ext_models[n] = lambda *a: None
    itp.models["streamtasks.net.serialization:RawData"] = lambda itp_, a, k: a[0]
    self.client = itp.fresh("client", ANY("client")); self.address = itp.fresh("address", INT)
    itp.attr_models[("client", "address")] = lambda itp_, s: self.address
    self.o = itp.new_obj(itp.cls_by_qual(TM), {"client": self.client, "bc_server": itp.fresh("bc", ANY("bc"))})
    self.arbitrary()
    g["segments"] = (); g["log"] = (); g["start"] = State(self)
    itp.any_methods[("bc", "broadcast")] = lambda itp_, s, a, k: CoroV(lambda: self.event("cast", a[0], self.dump(a[1])))
    itp.any_methods[("client", "fetch")] = lambda itp_, s, a, k: CoroV(lambda: self.fetch(*a))
    self.fetched = None
    self.used = z3.Function("used_ids", z3.StringSort(), z3.BoolSort())
    def uuid4(itp_, a, k):
      u = itp.fresh("uuid", STR); itp.st.ghost["uuid"] = u.t
      itp.assume(z3.Not(sel(m_dom(TAB, itp.to_term(itp.getattr(self.o, "tasks"), TAB)), u.t)))
      return u
    itp.ext_models["uuid.uuid4"] = uuid4
  def arbitrary(self):
    """any tables whose entries are under their own ids"""
    itp = self.itp
    t, h = itp.fresh_const("tasks", sort(TAB)), itp.fresh_const("hosts", sort(HOSTS))
    itp.setattr(self.o, "tasks", itp.new_cont("map", TAB, t)); itp.setattr(self.o, "task_hosts", itp.new_cont("map", HOSTS, h))
    k = z3.Const("k!tab", z3.StringSort())
    v = sel(m_val(TAB, t), k)
    itp.assume(M.mk_forall([k], z3.Implies(sel(m_dom(TAB, t), k), z3.And(itp.fld_get(TI, "id", v) == k, itp.fld_get(TI, "$alloc", v))), [[v]]))
    hv = sel(m_val(HOSTS, h), k)
    itp.assume(M.mk_forall([k], z3.Implies(sel(m_dom(HOSTS, h), k), r_get(HOST, "id", hv) == k), [[hv]]))
    return t
  def others(self):
    """other handlers run: entries are added, changed by reports and answers, and removed; their id, host and space never change, an id keeps its entry"""
    itp = self.itp
    old = itp.to_term(itp.getattr(self.o, "tasks"), TAB)
    for n in ("status", "error", "metadata"): itp.st.farr[(TI, n)] = itp.fresh_const(n + "_then", z3.ArraySort(sort(I_), sort(FIELDS[n])))
    t = self.arbitrary()
    known = self.itp.st.ghost.get("mine")
    if known is not None:
      k, v = known
      itp.assume(z3.Implies(sel(m_dom(TAB, t), k), sel(m_val(TAB, t), k) == v))
      r = z3.Const("k!oth", z3.StringSort())
      itp.assume(M.mk_forall([r], z3.Implies(z3.And(sel(m_dom(TAB, t), r), r != k), sel(m_val(TAB, t), r) != v), [[sel(m_val(TAB, t), r)]]))
  def event(self, *e):
    g = self.itp.st.ghost
    now = State(self)
    g["segments"] = g["segments"] + ((g["start"], now),)
    g["log"] = g["log"] + (e + (now,),)
    self.others()
    g["start"] = State(self)
  def dump(self, v): return self.itp.content(v).d if isinstance(self.itp.deref(v), LocRef) and isinstance(self.itp.content(self.itp.deref(v)), PyDictC) else None
  def request(self):
    itp = self.itp
    r = request(itp)
    def ans(err):
      def m(itp_, a, k):
        b = a[1] if len(a) > 1 else k.get("body", k.get("content"))
        itp.setattr(a[0], "response_sent", True)
        d = self.dump(b) if isinstance(itp.deref(b), LocRef) else None
        self.event("error" if err else "answer", b if d is None else dict(d))
      return m
    itp.models[FR + ".respond"] = ans(False); itp.models[FR + ".respond_error"] = ans(True)
    return r
  def handler(self, desc, method="run_fetch_api"):
    itp = self.itp
    hs = capture(itp, lambda: itp.call(itp.getattr(self.o, method), []))
    c = itp.getattr(itp.cls_by_qual(T + ":TaskConstants"), desc)
    itp.check(f"{desc} has a handler", c in hs)
    if c not in hs: raise PathEnd()
    return hs[c]
  def run(self, desc, method="run_fetch_api"):
    itp = self.itp
    arg = self.request() if method == "run_fetch_api" else itp.fresh("body", ANY("body"))
    h = self.handler(desc, method)
    self.itp.st.ghost["start"] = State(self)
    st, r = run_handler(itp, h, arg)
    g = itp.st.ghost; now = State(self)
    self.segs = g["segments"] + ((g["start"], now),); self.log = g["log"]
    return st, r
  def fetch(self, addr, desc, body):
    itp = self.itp; g = itp.st.ghost
    self.event("fetch", addr, desc, dict(self.dump(body) or {}))
    k = itp.choose(3); self.fetched = k
    if k == 1: raise PyRaise(itp.new_obj(itp.cls_by_qual("streamtasks.client.fetch:FetchError"), {"body": itp.fresh("err", ANY("body"))}))
    if k == 2: itp.raise_py(RuntimeError, "no answer")
    return g.get("reply") or itp.fresh("reply", ANY("body"))
  def of(self, kind): return [e for e in self.log if e[0] == kind]
  def unchanged(self, label, a, b, hosts=True):
    itp = self.itp; k = itp.fresh_const("k", z3.StringSort())
    itp.check(label, z3.And(a.has(k) == b.has(k), z3.Implies(a.has(k), a.same(b, k)), *( [a.host(k) == b.host(k), z3.Implies(a.host(k), a.reg(k) == b.reg(k))] if hosts else [])))
  def later(self, label, n=1):
    """only the first n stretches between waits change anything"""
    for a, b in self.segs[n:]: self.unchanged(f"{label}: once it is announced or answered nothing else changes", a, b)
  def nothing(self, label):
    for a, b in self.segs: self.unchanged(f"{label}: the tables stay as they are", a, b)
  def text(self, v): return self.itp.to_term(v, STR)
  def shows(self, label, d, s, k, but=()):
    """the dumped instance d is the entry k of state s"""
    itp = self.itp
    ok = isinstance(d, dict) and set(d) == set(FIELDS)
    itp.check(label, z3.And(*[itp.to_term(d[n], FIELDS[n]) == s.field(n, k) for n in FIELDS]) if ok else False)
  def con(self, n): return self.itp.getattr(self.itp.cls_by_qual(T + ":TaskConstants"), n)
  def not_found(self, label, st, r):
    itp = self.itp; e = self.of("error")
    ok = len(e) == 1 and not self.of("answer")
    if ok:
      b = itp.deref(e[0][1]); ok = isinstance(b, tuple) and len(b) == 2 and itp.bz(itp.eq(b[0], "not_found"))
    itp.check(f"{label}: answered as not found", ok)

def eqt(itp, a, t, ty): return itp.to_term(a, ty) == t

def s_report(itp):
  w = World(itp); g = itp.st.ghost
  st, r = w.run("SD_TM_TASK_REPORT", "run_signal_api")
  if not w.memo: w.nothing("a malformed report"); itp.check("a malformed report: nothing is announced", not w.log); return
  m = w.memo[0]
  id, rs, re = w.text(itp.getattr(m, "id")), itp.to_term(itp.getattr(m, "status"), ST), itp.to_term(itp.getattr(m, "error"), ERR)
  a, b = w.segs[0]
  cast = w.of("cast")
  if not itp.decide(a.has(id)): w.nothing("a report for an unknown task"); itp.check("a report for an unknown task: nothing is announced", not w.log); return
  k = itp.fresh_const("k", z3.StringSort())
  itp.check("a report: never fails", st == "ok")
  over = z3.Or(*[rs == stat(itp, n) for n in ("stopped", "ended", "failed")]); run = rs == stat(itp, "running")
  itp.check("a report: a task no longer running leaves", z3.Implies(over, z3.Not(b.has(id))))
  itp.check("a report: a running task stays, as reported", z3.Implies(run, z3.And(b.has(id), b.field("status", id) == rs, b.field("error", id) == re, b.same(a, id, ("status", "error")))))
  itp.check("a report: no other task is affected", z3.Implies(k != id, z3.And(b.has(k) == a.has(k), z3.Implies(a.has(k), b.same(a, k)))))
  itp.check("a report: hosts stay", z3.And(b.host(k) == a.host(k), z3.Implies(a.host(k), b.reg(k) == a.reg(k))))
  itp.check("a report: announced once", len(cast) == 1 and len(w.log) == 1)
  if len(cast) != 1: return
  itp.check("a report: announced under the task it names", itp.bz(itp.eq(cast[0][1], Sym(z3.Concat(z3.StringVal("/task/"), id), STR))))
  d = cast[0][2]
  ok = isinstance(d, dict) and set(d) == set(FIELDS)
  itp.check("a report: the announcement is the task as reported", z3.And(eqt(itp, d["id"], id, STR), eqt(itp, d["status"], rs, ST), eqt(itp, d["error"], re, ERR), *[eqt(itp, d[n], a.field(n, id), FIELDS[n]) for n in ("host_id", "topic_space_id", "metadata")]) if ok else False)
  w.later("a report")

def s_unregister(itp):
  w = World(itp)
  st, r = w.run("SD_UNREGISTER_TASK_HOST", "run_signal_api")
  if not w.memo: w.nothing("a malformed removal"); itp.check("a malformed removal: nothing is announced", not w.log); return
  id = w.text(itp.getattr(w.memo[0], "id")); a, b = w.segs[0]; k = itp.fresh_const("k", z3.StringSort())
  itp.check("removing a host: never fails", st == "ok")
  itp.check("removing a host: removes exactly it", z3.And(b.host(k) == z3.And(a.host(k), k != id), z3.Implies(b.host(k), b.reg(k) == a.reg(k))))
  itp.check("removing a host: removes exactly its tasks", b.has(k) == z3.And(a.has(k), a.field("host_id", k) != id))
  itp.check("removing a host: the other tasks stay as they are", z3.Implies(b.has(k), b.same(a, k)))
  c = w.of("cast")
  itp.check("removing a host: announced once", len(w.log) == 1 and len(c) == 1)
  if len(c) == 1:
    itp.check("removing a host: announced as removed", itp.bz(itp.eq(c[0][1], w.con("BC_TASK_HOST_UNREGISTERED"))))
    itp.check("removing a host: the announcement names it", isinstance(c[0][2], dict) and "id" in c[0][2] and eqt(itp, c[0][2]["id"], id, STR))
  w.later("removing a host")

def s_register(itp):
  w = World(itp)
  st, r = w.run("FD_REGISTER_TASK_HOST")
  if not w.memo: w.nothing("a malformed registration"); itp.check("a malformed registration: is refused", st != "ok" or bool(w.of("error"))); return
  reg = itp.to_term(w.memo[0], HOST); id = r_get(HOST, "id", reg); a, b = w.segs[0]; k = itp.fresh_const("k", z3.StringSort())
  itp.check("registering a host: never fails", st == "ok" and not w.of("error"))
  itp.check("registering a host: it is known as given", z3.And(b.host(id), b.reg(id) == reg))
  itp.check("registering a host: no other host is affected", z3.Implies(k != id, z3.And(b.host(k) == a.host(k), z3.Implies(a.host(k), b.reg(k) == a.reg(k)))))
  itp.check("registering a host: tasks stay", z3.And(b.has(k) == a.has(k), z3.Implies(a.has(k), b.same(a, k))))
  c = w.of("cast")
  itp.check("registering a host: announced once", len(c) == 1)
  if len(c) == 1:
    d = c[0][2]
    itp.check("registering a host: announced as registered", itp.bz(itp.eq(c[0][1], w.con("BC_TASK_HOST_REGISTERED"))))
    itp.check("registering a host: the announcement is the registration", isinstance(d, dict) and set(d) == {"id", "address", "metadata"} and z3.And(*[eqt(itp, d[n], r_get(HOST, n, reg), t) for n, t in rec_fields(HOST)]))
  w.later("registering a host")

def s_list(itp):
  w = World(itp); L = LIST(HOST)
  def dp(itp_, s, a, k): itp.st.ghost["listed"] = itp.to_term(M.build_list(itp, a[0]), L); return itp.fresh("dumped", ANY("dumped"))
  itp.any_methods[("adapter", "dump_python")] = dp
  itp.models["const:" + T + ":TaskHostRegistrationList"] = lambda *a: itp.fresh("adapter", ANY("adapter"))
  st, r = w.run("FD_TM_LIST_TASK_HOSTS")
  w.nothing("listing hosts")
  l = itp.st.ghost.get("listed"); an = w.of("answer")
  ok = st == "ok" and len(an) == 1 and l is not None and isinstance(itp.deref(an[0][1]), Sym) and itp.deref(an[0][1]).ty == ANY("dumped")
  itp.check("listing hosts: one answer", ok)
  if not ok: return
  s = w.segs[0][0]; i, k = z3.Int("i!l"), itp.fresh_const("k", z3.StringSort())
  at = lambda j: sel(l_arr(L, l), j); n = l_len(L, l); j = itp.fresh_const("j", z3.IntSort())
  itp.check("listing hosts: every host is listed", z3.Implies(s.host(k), z3.Exists([i], z3.And(0 <= i, i < n, at(i) == s.reg(k)))))
  itp.check("listing hosts: nothing else is", z3.Implies(z3.And(0 <= j, j < n), z3.And(s.host(r_get(HOST, "id", at(j))), s.reg(r_get(HOST, "id", at(j))) == at(j))))

def s_get(which):
  def s(itp):
    w = World(itp); what = f"asking for a {which}"
    st, r = w.run("FD_TM_GET_TASK_HOST" if which == "host" else "FD_TM_TASK_GET")
    w.nothing(what)
    if not w.memo: itp.check(f"{what}: a malformed request is refused", st != "ok" or len(w.of("error")) == 1 and not w.of("answer")); return
    id = w.text(itp.getattr(w.memo[0], "id")); s = w.segs[0][0]
    known = itp.decide(s.host(id) if which == "host" else s.has(id))
    if not known: w.not_found(f"{what} unknown", st, r); return
    an = w.of("answer")
    itp.check(f"{what}: one answer", st == "ok" and len(an) == 1 and len(w.log) == 1)
    if len(an) != 1: return
    if which == "task": w.shows(f"{what}: it is the entry", an[0][1], s, id)
    else:
      d = an[0][1]
      itp.check(f"{what}: it is the registration", isinstance(d, dict) and set(d) == {"id", "address", "metadata"} and z3.And(*[eqt(itp, d[n], r_get(HOST, n, s.reg(id)), t) for n, t in rec_fields(HOST)]))
  return s

def s_schedule(itp):
  w = World(itp)
  itp.ext_models.setdefault("x", None)
  st, r = w.run("FD_TM_TASK_SCHEDULE")
  if not w.memo: w.nothing("a malformed order"); itp.check("a malformed order: is refused", st != "ok" or bool(w.of("error"))); return
  m = w.memo[0]; a, b = w.segs[0]; k = itp.fresh_const("k", z3.StringSort())
  an = w.of("answer")
  itp.check("scheduling: one answer, never fails", st == "ok" and len(an) == 1 and len(w.log) == 1)
  if len(an) != 1: return
  d = an[0][1]
  itp.check("scheduling: the answer is an instance", isinstance(d, dict) and set(d) == set(FIELDS))
  if not (isinstance(d, dict) and set(d) == set(FIELDS)): return
  id = w.text(d["id"])
  itp.check("scheduling: under a fresh id", z3.And(z3.Not(a.has(id)), itp.st.ghost["uuid"] == id if "uuid" in itp.st.ghost else z3.BoolVal(False)))
  itp.check("scheduling: recorded before it is answered", b.has(id))
  w.shows("scheduling: answered as recorded", d, b, id)
  itp.check("scheduling: with its host and space", z3.And(eqt(itp, itp.getattr(m, "host_id"), b.field("host_id", id), STR), eqt(itp, itp.getattr(m, "topic_space_id"), b.field("topic_space_id", id), SP)))
  itp.check("scheduling: as scheduled, without error", z3.And(b.field("status", id) == stat(itp, "scheduled"), b.field("error", id) == itp.to_term(None, ERR), b.field("metadata", id) == NO_META))
  itp.check("scheduling: no other task is affected", z3.Implies(k != id, z3.And(b.has(k) == a.has(k), z3.Implies(a.has(k), b.same(a, k)))))
  itp.check("scheduling: hosts stay", z3.And(b.host(k) == a.host(k), z3.Implies(a.host(k), b.reg(k) == a.reg(k))))
  w.later("scheduling")

def mine(w, s):
  """the entry the request names, known across waits"""
  id = w.itp.to_term(w.itp.getattr(w.memo[0], "id"), STR)
  w.itp.st.ghost["mine"] = (id, sel(m_val(TAB, s.t), id))

def s_start(itp):
  w = World(itp)
  ev = w.event
  def event(*e):
    if w.memo and "mine" not in itp.st.ghost: mine(w, itp.st.ghost["start"])
    ev(*e)
  w.event = event
  st, r = w.run("FD_TM_TASK_START")
  if not w.memo: w.nothing("a malformed start"); itp.check("a malformed start: is refused", (st != "ok" or bool(w.of("error"))) and not w.of("fetch")); return
  m = w.memo[0]; id = w.text(itp.getattr(m, "id")); a0, b0 = w.segs[0]; end = w.segs[-1][1]
  k = itp.fresh_const("k", z3.StringSort()); f = w.of("fetch"); an = w.of("answer")
  if not itp.decide(a0.has(id)):
    w.nothing("starting an unknown task"); itp.check("starting an unknown task: no host is asked", not f); w.not_found("starting an unknown task", st, r); return
  h = a0.field("host_id", id)
  def untouched(label, a, b): itp.check(label, z3.Implies(k != id, z3.And(b.has(k) == a.has(k), z3.Implies(a.has(k), b.same(a, k)))))
  if not itp.decide(a0.host(h)):
    itp.check("starting on a host that is gone: no host is asked", not f)
    itp.check("starting on a host that is gone: fails", (st != "ok" or len(w.of("error")) == 1) and not an)
    itp.check("starting on a host that is gone: leaves no entry", z3.Not(b0.has(id)))
    untouched("starting on a host that is gone: no other task is affected", a0, b0); w.later("starting on a host that is gone"); return
  itp.check("starting: one host is asked, once", len(f) == 1)
  if len(f) != 1: return
  w.unchanged("starting: the tables wait for the host", a0, b0)
  d = f[0][3]
  itp.check("starting: the task's own host is asked", itp.bz(itp.eq(f[0][1], Sym(r_get(HOST, "address", a0.reg(h)), INT))))
  itp.check("starting: it is asked to start", itp.bz(itp.eq(f[0][2], w.con("FD_TASK_START"))))
  ok = set(d) == {"id", "config", "topic_space_id", "report_address"}
  itp.check("starting: with id, space, configuration and where to report", ok and z3.And(eqt(itp, d["id"], id, STR), eqt(itp, d["topic_space_id"], a0.field("topic_space_id", id), SP), itp.bz(itp.eq(d["config"], itp.getattr(m, "config"))), itp.bz(itp.eq(d["report_address"], w.address))))
  a, b = w.segs[1]
  untouched("starting: no other task is affected", a, b)
  itp.check("starting: hosts stay", z3.And(b.host(k) == a.host(k), z3.Implies(a.host(k), b.reg(k) == a.reg(k))))
  w.later("starting", 2)
  if w.fetched or len(w.memo) < 2:
    itp.check("a host that fails or answers nonsense: the start fails", (st != "ok" or len(w.of("error")) == 1) and not an)
    itp.check("a host that fails or answers nonsense: no entry is left", z3.Not(b.has(id))); return
  rp = w.memo[1]; err = itp.to_term(itp.getattr(rp, "error"), ERR); good = err == itp.to_term(None, ERR)
  itp.check("the host answers: one answer, no error", st == "ok" and len(an) == 1 and not w.of("error"))
  if len(an) != 1: return
  v = an[0][1]; ok = isinstance(v, dict) and set(v) == set(FIELDS)
  itp.check("the host answers: the answer is an instance", ok)
  if not ok: return
  vt = {n: itp.to_term(v[n], FIELDS[n]) for n in FIELDS}
  itp.check("the host answers: the answer is the task asked for", z3.And(vt["id"] == id, vt["host_id"] == h, vt["topic_space_id"] == a0.field("topic_space_id", id)))
  itp.check("the host refused: no entry is left", z3.Implies(z3.Not(good), z3.Not(b.has(id))))
  itp.check("the host refused: the answer says so", z3.Implies(z3.Not(good), z3.And(vt["status"] == stat(itp, "failed"), vt["error"] == err)))
  itp.check("the host started it: it is there unless it ended or was removed meanwhile", z3.Implies(good, b.has(id) == a.has(id)))
  waiting = a.field("status", id) == stat(itp, "scheduled")
  itp.check("the host started it: it runs, or is what was reported meanwhile", z3.Implies(z3.And(good, a.has(id)), z3.And(b.field("status", id) == z3.If(waiting, stat(itp, "running"), a.field("status", id)), b.same(a, id, ("status", "metadata", "error")), z3.Implies(z3.Not(waiting), b.field("error", id) == a.field("error", id)), b.field("metadata", id) == itp.to_term(itp.getattr(rp, "metadata"), META))))
  itp.check("the host started it: the answer is the entry", z3.Implies(z3.And(good, a.has(id)), z3.And(*[vt[n] == b.field(n, id) for n in FIELDS])))
  t = itp.st.ghost["mine"][1]
  s1 = z3.Select(a.f["status"], t)
  itp.check("the host started it: what was reported meanwhile is answered", z3.Implies(z3.And(good, s1 != stat(itp, "scheduled")), vt["status"] == s1))

def s_cancel(itp):
  w = World(itp); itp.st.ghost["reply"] = itp.fresh("reply", STR)
  st, r = w.run("FD_TM_TASK_CANCEL")
  w.nothing("cancelling")
  if not w.memo: itp.check("cancelling: a malformed request is refused", st != "ok" or bool(w.of("error"))); return
  id = w.text(itp.getattr(w.memo[0], "id")); s = w.segs[0][0]; f = w.of("fetch"); an = w.of("answer")
  h = s.field("host_id", id)
  if not itp.decide(s.has(id)) or not itp.decide(s.host(h)): itp.check("cancelling an unknown task: no host is asked", not f); w.not_found("cancelling an unknown task", st, r); return
  itp.check("cancelling: one host is asked, once", len(f) == 1)
  if len(f) != 1: return
  itp.check("cancelling: the task's own host is asked to cancel it", z3.And(itp.bz(itp.eq(f[0][1], Sym(r_get(HOST, "address", s.reg(h)), INT))), itp.bz(itp.eq(f[0][2], w.con("FD_TASK_CANCEL"))), eqt(itp, f[0][3].get("id"), id, STR) if "id" in f[0][3] else z3.BoolVal(False)))
  good = z3.BoolVal(w.fetched == 0) if w.fetched else itp.st.ghost["reply"].t == z3.StringVal("OK")
  itp.check("cancelling: succeeds only if the host did", z3.BoolVal(len(an) == 1) == good)
  itp.check("cancelling: fails otherwise", z3.Implies(z3.Not(good), z3.BoolVal(st != "ok" or bool(w.of("error")))))

HT = ANY("htask"); HTAB = MAP(STR, HT)
class HostWorld:
  """a task host with any tasks running"""
  def __init__(self, itp):
    self.itp = itp; setup(itp); g = itp.st.ghost
    itp.enum_types[T + ":TaskStatus"] = ST
    self.memo = []; decoding(itp, memo=self.memo)
    g["field:TaskStartRequest.config"] = itp.fresh("config", CONF)
    for n in ("traceback.format_exc", "logging.debug", "builtins.print", "print", "traceback.print_exc"): itp.ext_models[n] = lambda *a: None
    self.client = itp.fresh("client", ANY("client"))
    self.t0 = itp.fresh_const("host_tasks", sort(HTAB))
    self.o = itp.new_obj(itp.cls_by_qual(TH), {"client": self.client, "tasks": itp.new_cont("map", HTAB, self.t0), "id": itp.fresh("host_id", STR)})
    g["sent"], g["created"], g["cancelled"] = (), (), ()
  def tasks(self): return self.itp.to_term(self.itp.getattr(self.o, "tasks"), HTAB)
  def only(self, label, id, there):
    """the table differs at most at id"""
    itp = self.itp; k = itp.fresh_const("k", z3.StringSort()); t = self.tasks()
    itp.check(label + ": no other task is affected", z3.Implies(k != id, z3.And(sel(m_dom(HTAB, t), k) == sel(m_dom(HTAB, self.t0), k), z3.Implies(sel(m_dom(HTAB, t), k), sel(m_val(HTAB, t), k) == sel(m_val(HTAB, self.t0), k)))))
    itp.check(label + (": it is known" if there else ": no entry is left"), sel(m_dom(HTAB, t), id) == there)
  def same(self, label): 
    k = self.itp.fresh_const("k", z3.StringSort()); t = self.tasks()
    self.itp.check(label, z3.And(sel(m_dom(HTAB, t), k) == sel(m_dom(HTAB, self.t0), k), z3.Implies(sel(m_dom(HTAB, t), k), sel(m_val(HTAB, t), k) == sel(m_val(HTAB, self.t0), k))))
  def handler(self, desc):
    itp = self.itp
    hs = capture(itp, lambda: itp.call(itp.getattr(self.o, "run_api"), []))
    c = itp.getattr(itp.cls_by_qual(T + ":TaskConstants"), desc)
    itp.check(f"{desc} has a handler", c in hs)
    if c not in hs: raise PathEnd()
    return hs[c]

def s_run_task(itp):
  w = HostWorld(itp); g = itp.st.ghost
  how = itp.choose(4); fails = itp.choose(2)
  def run(itp_, s, a, k):
    def th():
      g["ran"] = g.get("ran", 0) + 1
      if how == 1: itp.raise_py(asyncio.CancelledError)
      if how == 2: itp.raise_py(RuntimeError, "broken")
      if how == 3: raise PyRaise(itp.new_obj(itp.cls_by_qual("streamtasks.client.fetch:FetchError"), {"body": itp.fresh("err", ANY("body"))}))
    return CoroV(th)
  itp.any_methods[("ttask", "run")] = run
  itp.models["streamtasks.client.fetch:FetchError.__str__"] = lambda itp_, a, k: itp.fresh("text", STR)
  def send(itp_, a, k):
    g["sent"] = g["sent"] + (tuple(a),)
    if fails: itp.raise_py(ConnectionError, "gone")
  itp.models["streamtasks.client.signal:send_signal"] = send
  id, addr = itp.fresh("id", STR), itp.fresh("report_address", INT)
  itp.assume(sel(m_dom(HTAB, w.t0), id.t))
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(w.o, "run_task"), [id, itp.fresh("task", ANY("ttask")), addr])))
  itp.check("running a task: it is run once", g.get("ran") == 1)
  w.only("running a task", id.t, False)
  itp.check("running a task: one report", len(g["sent"]) == 1)
  if len(g["sent"]) != 1: return
  s = g["sent"][0]; d = body_get(itp, s[3], "id")
  itp.check("running a task: reported where it was asked to", itp.bz(itp.conj([itp.eq(s[1], addr), itp.eq(s[2], itp.getattr(itp.cls_by_qual(T + ":TaskConstants"), "SD_TM_TASK_REPORT"))])))
  itp.check("running a task: the report names it", d is not None and itp.bz(itp.eq(d, id)))
  x = body_get(itp, s[3], "status"); e = body_get(itp, s[3], "error")
  itp.check("running a task: reported as it ended", x is not None and itp.to_term(x, ST) == stat(itp, ["ended", "stopped", "failed", "failed"][how]))
  itp.check("running a task: an error is reported exactly where it failed", (itp.deref(e) is None) == (how < 2))
  if not fails: itp.check("running a task: never fails", st == "ok" or how == 1 and exc_is(itp, r, asyncio.CancelledError))

def s_host_start(itp):
  w = HostWorld(itp); g = itp.st.ghost
  arg = request(itp); h = w.handler("FD_TASK_START")
  made, setup_, ok_meta = itp.choose(3), itp.choose(3), itp.choose(2)
  task = itp.fresh("task", ANY("ttask")); meta = itp.fresh("metadata", META)
  g["asked"] = ()
  def fail(k):
    if k == 1: itp.raise_py(ValueError, "no")
    if k == 2: raise PyRaise(itp.new_obj(itp.cls_by_qual("streamtasks.client.fetch:FetchError"), {"body": itp.fresh("err", ANY("body"))}))
  def create(itp_, a, k):
    g["asked"] = g["asked"] + ((a[1], a[2] if len(a) > 2 else k.get("topic_space_id")),)
    fail(made); return task
  itp.models[TH + ".create_task"] = create
  def su(itp_, s, a, k):
    def th(): g["setup"] = g.get("setup", 0) + 1; fail(setup_); return meta
    return CoroV(th)
  itp.any_methods[("ttask", "setup")] = su
  itp.ext_models["asyncio.wait_for"] = lambda itp_, a, k: CoroV(lambda: itp.await_(a[0]))
  itp.models["streamtasks.client.fetch:FetchError.__str__"] = lambda itp_, a, k: itp.fresh("text", STR)
  rt = []
  def run_task(itp_, a, k): rt.append(tuple(a[1:]) + tuple(k.values())); return None
  itp.models[TH + ".run_task"] = run_task
  def create_task(itp_, a, k):
    itp.await_(a[0])
    f = itp.fresh("running", HT); g["created"] = g["created"] + (f.t,); return f
  itp.ext_models["asyncio.create_task"] = create_task
  resp = T + ":TaskStartResponse"
  def response(itp_, a, k):
    if itp.deref(k["error"]) is None and ok_meta: itp.raise_py(VE, "metadata")
    d = itp.new_dict(dict(k)); return d
  itp.models[resp] = response
  st, r = run_handler(itp, h, arg)
  A = answers(itp); what = "starting on the host"
  if not w.memo:
    w.same(f"{what}: a malformed request changes nothing"); itp.check(f"{what}: a malformed request is refused", st != "ok" and not A and not g["created"]); return
  m = w.memo[0]; id = itp.to_term(itp.getattr(m, "id"), STR)
  good = made == 0 and setup_ == 0 and not ok_meta
  itp.check(f"{what}: one answer", st == "ok" and len(A) == 1)
  if len(A) != 1: return
  e = body_get(itp, A[0][1], "error"); i = body_get(itp, A[0][1], "id")
  itp.check(f"{what}: the answer names the task", A[0][0] is False and i is not None and itp.bz(itp.eq(i, Sym(id, STR))))
  itp.check(f"{what}: created with the given configuration and space", len(g["asked"]) == 1 and itp.bz(itp.conj([itp.eq(g["asked"][0][0], itp.getattr(m, "config")), itp.eq(g["asked"][0][1], itp.getattr(m, "topic_space_id"))])))
  if not good:
    w.same(f"{what}: a failed start changes nothing")
    itp.check(f"{what}: a failed start runs nothing", not g["created"])
    itp.check(f"{what}: a failed start is answered with its error", itp.deref(e) is not None); return
  w.only(what, id, True)
  itp.check(f"{what}: answered without error, with the task's metadata", itp.deref(e) is None and itp.deref(body_get(itp, A[0][1], "metadata")) is itp.deref(meta) or itp.bz(itp.eq(body_get(itp, A[0][1], "metadata"), meta)))
  itp.check(f"{what}: one run, of this task, reporting where asked", len(g["created"]) == 1 and len(rt) >= 1 and itp.bz(itp.conj([itp.eq(rt[-1][0], Sym(id, STR)), itp.eq(rt[-1][1], task), itp.eq(rt[-1][2], itp.getattr(m, "report_address"))])))
  if len(g["created"]) == 1: itp.check(f"{what}: known as that run", sel(m_val(HTAB, w.tasks()), id) == g["created"][0])

def s_host_cancel(itp):
  w = HostWorld(itp); g = itp.st.ghost
  arg = request(itp); h = w.handler("FD_TASK_CANCEL")
  def cancel(itp_, s, a, k): g["cancelled"] = g["cancelled"] + (s.t,); return True
  itp.any_methods[("htask", "cancel")] = cancel
  st, r = run_handler(itp, h, arg)
  A = answers(itp); what = "cancelling on the host"
  w.same(f"{what}: the entry leaves with the report, not before")
  if not w.memo: itp.check(f"{what}: a malformed request is refused", st != "ok" and not A and not g["cancelled"]); return
  id = itp.to_term(itp.getattr(w.memo[0], "id"), STR)
  if not itp.decide(sel(m_dom(HTAB, w.t0), id)): itp.check(f"{what}: an unknown task is refused", not g["cancelled"] and (st != "ok" or len(A) == 1 and A[0][0] is True)); return
  itp.check(f"{what}: exactly it is cancelled, once", len(g["cancelled"]) == 1 and g["cancelled"][0] == sel(m_val(HTAB, w.t0), id))
  itp.check(f"{what}: one answer, OK", st == "ok" and len(A) == 1 and A[0][0] is False and itp.bz(itp.eq(A[0][1], "OK")))

EP = ANY("endpoint")
def s_host_stop(itp):
  """run() ends, for whatever reason: what it leaves behind"""
  w = HostWorld(itp); g = itp.st.ghost
  L = LIST(EP); eps = itp.fresh_const("registered_at", sort(L)); itp.assume(l_len(L, eps) >= 0)
  itp.setattr(w.o, "_registered_at_endpoints", itp.new_cont("list", L, eps)); itp.setattr(w.o, "register_endpoits", itp.new_list([]))
  itp.setattr(w.o, "ready", itp.fresh("ready", ANY("event")))
  A = itp.any_methods
  for n in ("set", "clear"): A[("event", n)] = lambda itp_, s, a, k: None
  where = itp.choose(3)
  def client(itp_, a, k):
    if where == 0: itp.raise_py(ConnectionError, "no link")
    return w.client
  itp.models[TH + ".create_client"] = client
  A[("client", "start")] = lambda itp_, s, a, k: None
  A[("client", "request_address")] = lambda itp_, s, a, k: CoroV(lambda: None)
  itp.models["streamtasks.client.discovery:wait_for_topic_signal"] = lambda *a: None
  AS = "streamtasks.asgiserver"
  itp.models[AS + ":ASGIRouter"] = lambda itp_, a, k: itp.fresh("router", ANY("router"))
  itp.attr_models[("router", "handler_count")] = lambda itp_, s: 0
  itp.models[TH + ".register_routes"] = lambda *a: None
  def api(itp_, a, k): itp.raise_py(asyncio.CancelledError if where == 1 else RuntimeError)
  itp.models[TH + ".run_api"] = api
  itp.ext_models["asyncio.gather"] = lambda itp_, a, k: CoroV(lambda: [itp.await_(x) for x in a])
  itp.ext_models["logging.getLogger"] = lambda itp_, a, k: itp.fresh("logger", ANY("logger"))
  A[("logger", "isEnabledFor")] = lambda itp_, s, a, k: False
  UN = z3.Function("unregistering", sort(EP), sort(HT))
  itp.models[TH + ".unregister"] = lambda itp_, a, k: Sym(itp.to_term(a[1], EP), EP)
  itp.ext_models["asyncio.create_task"] = lambda itp_, a, k: Sym(UN(itp.to_term(itp.await_(a[0]), EP)), HT)
  g["cancelled"] = z3.Const("cancel0", z3.ArraySort(sort(HT), z3.BoolSort()))
  g["waited"] = None
  x = z3.Const("x!ht", sort(HT))
  c0 = g["cancelled"]; itp.assume(M.mk_forall([x], z3.Not(sel(c0, x)), [[sel(c0, x)]]))
  def cancel(itp_, s, a, k): g["cancelled"] = z3.Store(g["cancelled"], s.t, True); return True
  A[("htask", "cancel")] = cancel
  def hint(lc):
    """every task gone through is cancelled, and what was cancelled stays so"""
    if lc.seg is None: return []
    vs = lc.seg.value if isinstance(lc.seg.value, tuple) else (lc.seg.value,)
    b = z3.Const("b!ht", sort(lc.seg.bty)); out = []
    for v in vs:
      t = getattr(v, "t", None) if getattr(v, "t", None) is not None else getattr(v, "term", None)
      if t is None or t.sort() != sort(HT): continue
      out.append(("cancelled so far", lambda D, t=t: M.mk_forall([b], z3.Implies(D(b), sel(g["cancelled"], z3.substitute(t, (lc.seg.b, b)))), [lc.dpat(b)])))
    p0 = lc.in_pre(lambda: g["cancelled"])
    out.append(("stays cancelled", lambda D: M.mk_forall([x], z3.Implies(sel(p0, x), sel(g["cancelled"], x)), [[sel(g["cancelled"], x)]])))
    return out
  itp.loop_hints.append(hint)
  LH = LIST(HT)
  def wait(itp_, a, k):
    def th(): g["waited"] = (itp.to_term(M.build_list(itp, a[0]), LH), g["cancelled"]); return (itp.new_list([]), itp.new_list([]))
    return CoroV(th)
  itp.ext_models["asyncio.wait"] = wait
  itp.models["streamtasks.worker:Worker.shutdown"] = lambda itp_, a, k: g.__setitem__("down", g.get("down", 0) + 1)
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(w.o, "run"), [])))
  what = "a stopping host"
  itp.check(f"{what}: fails with what stopped it", st != "ok" and exc_is(itp, r, [ConnectionError, asyncio.CancelledError, RuntimeError][where]))
  itp.check(f"{what}: closes its links", g.get("down") == 1)
  id = itp.fresh_const("id", z3.StringSort()); t = sel(m_val(HTAB, w.t0), id); known = sel(m_dom(HTAB, w.t0), id)
  itp.check(f"{what}: stops every task", z3.Implies(known, sel(g["cancelled"], t)))
  i, j = itp.fresh_const("i", z3.IntSort()), z3.Int("j!w")
  ep = sel(l_arr(L, eps), i); there = z3.And(0 <= i, i < l_len(L, eps))
  if g["waited"] is None: itp.check(f"{what}: with anything to do, it waits", z3.And(z3.Not(known), z3.Not(there))); return
  l = g["waited"][0]; inl = lambda v: z3.Exists([j], z3.And(0 <= j, j < l_len(LH, l), sel(l_arr(LH, l), j) == v))
  itp.check(f"{what}: waits for every task", z3.Implies(known, inl(t)))
  itp.check(f"{what}: withdraws every registration", z3.Implies(there, inl(UN(ep))))

def s_host_register(itp):
  w = HostWorld(itp); g = itp.st.ghost
  L = LIST(EP); eps = itp.fresh_const("registered_at", sort(L)); itp.assume(l_len(L, eps) >= 0)
  itp.setattr(w.o, "_registered_at_endpoints", itp.new_cont("list", L, eps))
  ep = itp.fresh("endpoint", EP); addr = itp.fresh("address", INT)
  itp.attr_models[("client", "address")] = lambda itp_, s: addr
  itp.setattr(w.o, "_base_metadata", itp.new_dict({}))
  bad = itp.choose(2)
  def fetch(itp_, s, a, k):
    def th():
      g["sent"] = g["sent"] + (tuple(a),)
      if bad: itp.raise_py(RuntimeError, "no")
    return CoroV(th)
  itp.any_methods[("client", "fetch")] = fetch
  def sig(itp_, a, k): g["sent"] = g["sent"] + (tuple(a[1:]),)
  itp.models["streamtasks.client.signal:send_signal"] = sig
  con = lambda n: itp.getattr(itp.cls_by_qual(T + ":TaskConstants"), n)
  def now(): return itp.to_term(itp.getattr(w.o, "_registered_at_endpoints"), L)
  def has(l, e):
    j = z3.Int("j!ep"); return z3.Exists([j], z3.And(0 <= j, j < l_len(L, l), sel(l_arr(L, l), j) == e))
  x = itp.fresh_const("x", sort(EP))
  if itp.choose(2):
    st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(w.o, "unregister"), [ep])))
    itp.check("withdrawing: sent to that endpoint, naming the host", st == "ok" and len(g["sent"]) == 1 and itp.bz(itp.conj([itp.eq(g["sent"][0][0], ep), itp.eq(g["sent"][0][1], con("SD_UNREGISTER_TASK_HOST")), itp.eq(body_get(itp, g["sent"][0][2], "id"), itp.getattr(w.o, "id"))])))
    itp.check("withdrawing: exactly it is forgotten", z3.And(z3.Not(has(now(), ep.t)), z3.Implies(x != ep.t, has(now(), x) == has(eps, x)))); return
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(w.o, "register"), [ep])))
  itp.check("registering: asked at that endpoint once", len(g["sent"]) == 1)
  if len(g["sent"]) != 1: return
  s = g["sent"][0]
  itp.check("registering: with its id and address", itp.bz(itp.conj([itp.eq(s[0], ep), itp.eq(s[1], con("FD_REGISTER_TASK_HOST")), itp.eq(body_get(itp, s[2], "id"), itp.getattr(w.o, "id")), itp.eq(body_get(itp, s[2], "address"), addr)])))
  itp.check("registering: remembered for the end exactly if it worked", z3.If(z3.BoolVal(st == "ok"), z3.And(has(now(), ep.t), z3.Implies(x != ep.t, has(now(), x) == has(eps, x))), has(now(), x) == has(eps, x)))
  itp.check("registering: fails only if the other side does", (st == "ok") == (not bad))

SCENARIOS = [
  Scn("a report", s_report, [TM + ".run_signal_api", T + ":get_namespace_by_task_id"]),
  Scn("removing a host", s_unregister, [TM + ".run_signal_api"]),
  Scn("registering a host", s_register, [TM + ".run_fetch_api"]),
  Scn("listing hosts", s_list, [TM + ".run_fetch_api"]),
  Scn("asking for a host", s_get("host"), [TM + ".run_fetch_api"]),
  Scn("asking for a task", s_get("task"), [TM + ".run_fetch_api"]),
  Scn("scheduling", s_schedule, [TM + ".run_fetch_api"]),
  Scn("starting", s_start, [TM + ".run_fetch_api"]),
  Scn("cancelling", s_cancel, [TM + ".run_fetch_api"]),
  Scn("running a task", s_run_task, [TH + ".run_task"]),
  Scn("starting on the host", s_host_start, [TH + ".run_api"]),
  Scn("cancelling on the host", s_host_cancel, [TH + ".run_api"]),
  Scn("a stopping host", s_host_stop, [TH + ".run"]),
  Scn("registering", s_host_register, [TH + ".register", TH + ".unregister"]),
]
ASSUMPTIONS = ["pydantic decodes requests into well-typed models or refuses them", "uuid4 never repeats an id", "FetchServer answers a handler that raises with an error (P12), SignalServer drops what raises", "between waits a handler runs alone (asyncio); while it waits the others may add, change and remove entries, but the entry of an id stays the same object",
  "a run is not cancelled before its first step (then asyncio drops it without a report); a task is started once"]
TRUSTED = ["asyncio tasks and scheduling", "pydantic", "BroadcastingServer (P11/P12 oracles)"]
BOUNDED = ["the client's receivers (TaskManagerClient, TaskBroadcastReceiver, TaskHost*Receiver) by histories on a real network"]
