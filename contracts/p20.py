"""P20: the store of deployments, tasks and dashboards, over stores by their contract (P22): every operation from an arbitrary state with unique ids"""
from contracts.store import *
W = "streamtasks.system.task_web"
TS_ = W + ":TaskWebBackendStore"
DEP = REC(W + ":DeploymentBase", id=STR, label=STR)
TASK = REC(W + ":StoredTask", id=STR, deployment_id=STR, task_host_id=STR, label=STR, config=ANY("conf"), frontend_config=ANY("conf"), inputs=ANY("ios"), outputs=ANY("ios"))
DASH = REC(W + ":DeploymentDashboard", id=STR, deployment_id=STR, label=STR, windows=ANY("ios"))
INST = z3.Function("task_instances_of", z3.StringSort(), sort(ANY("insts")))
RUN = MAP(STR, ANY("running"))

class World:
  def __init__(self, itp):
    self.itp = itp
    self.dep, self.task, self.dash = Store(itp, "deployments", W + ":DeploymentBase", DEP, "id"), Store(itp, "tasks", W + ":StoredTask", TASK, "id"), Store(itp, "dashboards", W + ":DeploymentDashboard", DASH, "id")
    self.r0 = itp.fresh_const("running", sort(RUN))
    itp.attr_models[("running", "started")] = lambda itp_, s: Sym(z3.Function("started", sort(ANY("running")), z3.BoolSort())(s.t), BOOL)
    itp.attr_models[("running", "id")] = lambda itp_, s: Sym(z3.Function("id_of_running", sort(ANY("running")), z3.StringSort())(s.t), STR)
    self.inst = z3.Function("instances", sort(ANY("running")), sort(ANY("insts")))
    itp.attr_models[("running", "task_instances")] = lambda itp_, s: Sym(self.inst(s.t), ANY("insts"))
    self.has_inst = z3.Function("has_instance", sort(ANY("insts")), z3.StringSort(), z3.BoolSort())
    self.get_inst = z3.Function("instance", sort(ANY("insts")), z3.StringSort(), sort(ANY("inst")))
    def get(itp_, s, a, k):
      x = itp.to_term(a[0], STR)
      if itp.decide(self.has_inst(s.t, x)): return Sym(self.get_inst(s.t, x), ANY("inst"))
      return a[1] if len(a) > 1 else None
    itp.any_methods[("insts", "get")] = get
    self.o = itp.new_obj(itp.cls_by_qual(TS_), {"running_deployments": itp.new_cont("map", RUN, self.r0), "deployments": self.dep.v, "tasks": self.task.v, "dashboards": self.dash.v})
  def running(self, id): return sel(m_dom(RUN, self.r0), id)
  def call(self, name, *a):
    itp = self.itp
    return attempt(itp, lambda: itp.await_(itp.call(itp.getattr(self.o, name), list(a))))
  def body(self, rec):
    """the entry a request brings"""
    e = self.itp.fresh("entry", rec)
    self.entry = e
    return e
  def request(self, name, e, id=None):
    """the same by a web request -> as call, or None where the request itself was not well-formed (then nothing changes)"""
    itp = self.itp
    itp.st.ghost["entered"] = False; itp.st.ghost["malformed"] = False
    b = itp.new_obj(itp.cls_by_qual(W + ":TaskWebBackend"), {"store": self.o, "client": itp.fresh("client", ANY("client")), "tm_client": itp.fresh("tm", ANY("tmclient")), "path_registrations": itp.new_list([]), "deployment_task_listeners": itp.new_dict({})})
    itp.models[AS + ":path_rewrite_handler"] = lambda itp_, a, k: NativeV(lambda i2, a2, k2: a2[0], "rewrite")
    itp.models[AS + ":static_files_handler"] = lambda itp_, a, k: itp.fresh("handler", ANY("handler"))
    itp.models["streamtasks.asgi:asgi_default_http_error_handler"] = lambda itp_, a, k: None
    itp.ext_models["importlib.resources.files"] = lambda itp_, a, k: itp.fresh("dir", ANY("dir"))
    itp.any_methods[("dir", "joinpath")] = lambda itp_, s, a, k: s
    got = web(itp, lambda: itp.call(itp.getattr(b, "run_asgi_server"), []))
    h = got.get(ROUTES[name])
    itp.check(f"{name}: there is a route for it", h is not None)
    if h is None: raise PathEnd()
    def bad():
      if itp.choose(2): itp.st.ghost["malformed"] = True; itp.raise_py(ValueError, "malformed")
    def uuid(itp_, a, k): bad(); return a[0]
    itp.ext_models["uuid.UUID"] = uuid
    def decode(itp_, cls, v):
      bad()
      want = {"create_or_update_dashboard": "DeploymentDashboard", "create_or_update_task": "StoredTask"}.get(name, "DeploymentBase")
      itp.check(f"{name}: the body is read as an entry of its kind", cls.name == want)
      return e
    itp.decode_any = decode
    itp.any_methods[("ctx", "respond_json_string")] = itp.any_methods.get(("ctx", "respond_json"))
    c = context(itp, {"id": id} if id is not None else None)
    itp.any_methods[("ctx", "respond_json_string")] = itp.any_methods[("ctx", "respond_json")]
    for q in (W + ":DeploymentBase", W + ":StoredTask", W + ":DeploymentDashboard"): itp.models[q + ".model_dump_json"] = lambda itp_, a, k: itp.fresh("text", ANY("text"))
    st, r = attempt(itp, lambda: itp.await_(itp.call(h, [c])))
    if itp.st.ghost["malformed"]:
      itp.check(f"{name}: a malformed request fails", st != "ok")
      for x in (self.dep, self.task, self.dash): x.check_unchanged(f"{name}: a malformed request leaves the {x.name} as they are")
      return None, None
    return st, r
  def frame(self, what, *but):
    itp = self.itp
    for s in (self.dep, self.task, self.dash):
      if s not in but: s.check_unchanged(f"{what}: the {s.name} stay as they are")
    x = itp.fresh_const("d", z3.StringSort()); r = itp.to_term(itp.getattr(self.o, "running_deployments"), RUN)
    itp.check(f"{what}: what is running stays so", z3.And(sel(m_dom(RUN, r), x) == sel(m_dom(RUN, self.r0), x), z3.Implies(sel(m_dom(RUN, r), x), sel(m_val(RUN, r), x) == sel(m_val(RUN, self.r0), x))))
  def old(self, store, id):
    """-> (present, entry with this id) as z3"""
    i = z3.Int("i!old"); t = store.t0
    return z3.Exists([i], z3.And(0 <= i, i < store.n(t), store.k(store.at(t, i)) == id))
def term(itp, rec, e): return itp.to_term(e, rec)

ROUTES = {"create_or_update_dashboard": ("put", "/api/dashboard"), "create_deployment": ("post", "/api/deployment"), "update_deployment": ("put", "/api/deployment"), "create_or_update_task": ("put", "/api/task"),
  "delete_dashboard": ("delete", "/api/dashboard/{id}"), "delete_deployment": ("delete", "/api/deployment/{id}"), "delete_task": ("delete", "/api/task/{id}")}
def s_put(kind, web_=False):
  """create_or_update_dashboard, create_deployment, update_deployment, create_or_update_task"""
  def s(itp):
    w = World(itp)
    store, name, rec = {"dashboard": (w.dash, "create_or_update_dashboard", DASH), "new deployment": (w.dep, "create_deployment", DEP), "deployment": (w.dep, "update_deployment", DEP), "task": (w.task, "create_or_update_task", TASK)}[kind]
    if web_: e = w.body(rec)
    else: e = itp.fresh("entry", rec)
    et = term(itp, rec, e); id = store.k(et)
    st, r = w.request(name, e) if web_ else w.call(name, e)
    if st is None: return
    there = w.old(store, id)
    w.frame(name, store)
    if kind == "dashboard": refused = z3.BoolVal(False)
    elif kind == "new deployment": refused = there
    elif kind == "deployment": refused = z3.Or(w.running(id), z3.Not(there))
    else:
      dp = lambda x: r_get(TASK, "deployment_id", x)
      i = z3.Int("i!ref")
      refused = z3.Or(w.running(dp(et)), z3.Exists([i], z3.And(0 <= i, i < store.n(store.t0), store.k(store.at(store.t0, i)) == id, w.running(dp(store.at(store.t0, i))))))
    if st != "ok":
      itp.check(f"{name}: only what the guards forbid fails", refused)
      itp.check(f"{name}: it fails with ValueError", exc_is(itp, r, ValueError))
      store.check_unchanged(f"{name}: a call that fails changes nothing"); itp.check(f"{name}: a call that fails leaves the file alone", itp.st.ghost["disk:" + store.name] == store.t0)
      return
    itp.check(f"{name}: what the guards forbid fails", z3.Not(refused))
    store.check_replaced(name, id, et)
    itp.check(f"{name}: it is on disk when it returns", store.saved())
  return s
def s_delete(kind, web_=False):
  def s(itp):
    w = World(itp)
    store, name = {"dashboard": (w.dash, "delete_dashboard"), "deployment": (w.dep, "delete_deployment"), "task": (w.task, "delete_task")}[kind]
    idv = itp.fresh("id", STR); id = idv.t
    st, r = w.request(name, None, idv) if web_ else w.call(name, idv)
    if st is None: return
    there = w.old(store, id)
    w.frame(name, store)
    i = z3.Int("i!ref")
    if kind == "dashboard": refused = z3.BoolVal(False)
    elif kind == "deployment": refused = w.running(id)
    else: refused = z3.Or(z3.Not(there), z3.Exists([i], z3.And(0 <= i, i < store.n(store.t0), store.k(store.at(store.t0, i)) == id, w.running(r_get(TASK, "deployment_id", store.at(store.t0, i))))))
    if st != "ok":
      itp.check(f"{name}: only what the guards forbid fails", refused)
      itp.check(f"{name}: it fails with ValueError", exc_is(itp, r, ValueError))
      store.check_unchanged(f"{name}: a call that fails changes nothing"); itp.check(f"{name}: a call that fails leaves the file alone", itp.st.ghost["disk:" + store.name] == store.t0)
      return
    itp.check(f"{name}: what the guards forbid fails", z3.Not(refused))
    store.check_replaced(name, id)
    itp.check(f"{name}: it is on disk when it returns", store.saved())
  return s
def s_get(kind):
  def s(itp):
    w = World(itp)
    store, name, rec = {"dashboard": (w.dash, "get_dashboard", DASH), "deployment": (w.dep, "get_deployment", DEP), "task": (w.task, "get_task", TASK)}[kind]
    idv = itp.fresh("id", STR); id = idv.t
    st, r = w.call(name, idv)
    w.frame(name)
    if st != "ok":
      itp.check(f"{name}: fails only for an unknown id", z3.Not(w.old(store, id))); itp.check(f"{name}: it fails with ValueError", exc_is(itp, r, ValueError))
      return
    i = z3.Int("i!g")
    fs = [f for f, _ in rec_fields(rec)]
    got = {f: itp.to_term(itp.getattr(r, f), t) for f, t in rec_fields(rec)}
    itp.check(f"{name}: gives the stored entry of that id", z3.And(got["id"] == id, z3.Exists([i], z3.And(0 <= i, i < store.n(store.t0), *[r_get(rec, f, store.at(store.t0, i)) == got[f] for f in fs]))))
    if kind == "deployment":
      itp.check("its status tells whether it runs", z3.BoolVal(itp.key(itp.getattr(r, "status")) != "offline") == w.running(id) if isinstance(itp.getattr(r, "status"), str) else False)
    if kind == "task":
      x = itp.resolve(itp.getattr(r, "task_instance")); d = got["deployment_id"]; rn = sel(m_val(RUN, w.r0), d); has = z3.And(w.running(d), w.has_inst(w.inst(rn), id))
      itp.check("its instance is the running one, if any", z3.Not(has) if x is None else z3.And(has, itp.to_term(x, ANY("inst")) == w.get_inst(w.inst(rn), id)))
  return s
def s_running(itp):
  """a deployment is running from set_running_deployment to delete_running_deployment, others stay"""
  w = World(itp)
  x = itp.fresh_const("other", z3.StringSort())
  now = lambda: itp.to_term(itp.getattr(w.o, "running_deployments"), RUN)
  if itp.choose(2):
    d = itp.fresh("deployment", ANY("running"))
    k = itp.to_term(itp.getattr(d, "id"), STR)
    st, r = attempt(itp, lambda: itp.call(itp.getattr(w.o, "set_running_deployment"), [d]))
    itp.check("a deployment that starts is running", z3.And(z3.BoolVal(st == "ok"), sel(m_dom(RUN, now()), k), sel(m_val(RUN, now()), k) == d.t))
  else:
    kv = itp.fresh("id", STR); k = kv.t
    st, r = attempt(itp, lambda: itp.call(itp.getattr(w.o, "delete_running_deployment"), [kv]))
    itp.check("a deployment that stops is not running", z3.Not(sel(m_dom(RUN, now()), k)))
    itp.check("it fails only for one that is not running", z3.BoolVal(st == "ok") == w.running(k))
  itp.check("other deployments stay as they are", z3.Implies(x != k, z3.And(sel(m_dom(RUN, now()), x) == sel(m_dom(RUN, w.r0), x), sel(m_val(RUN, now()), x) == sel(m_val(RUN, w.r0), x))))
SCENARIOS = [Scn("put " + k, s_put(k), [TS_ + "." + n]) for k, n in (("dashboard", "create_or_update_dashboard"), ("new deployment", "create_deployment"), ("deployment", "update_deployment"), ("task", "create_or_update_task"))] + \
  [Scn("delete " + k, s_delete(k), [TS_ + ".delete_" + k]) for k in ("dashboard", "deployment", "task")] + [Scn("get " + k, s_get(k), [TS_ + ".get_" + k]) for k in ("dashboard", "deployment", "task")] + \
  [Scn("starting and stopping", s_running, [TS_ + ".set_running_deployment", TS_ + ".delete_running_deployment"])]
SCENARIOS += [Scn("web: put " + k, s_put(k, True), [W + ":TaskWebBackend.run_asgi_server", TS_]) for k in ("dashboard", "new deployment", "deployment", "task")] + [Scn("web: delete " + k, s_delete(k, True), [W + ":TaskWebBackend.run_asgi_server", TS_]) for k in ("dashboard", "deployment", "task")]
ASSUMPTIONS = ["an id in a path is written as the store writes it", "the stores hold what was last put there and their entries are copies (P22)", "pydantic: model_dump and model_validate keep the fields of an entry"]
