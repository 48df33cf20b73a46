"""P21: named topics and secrets are maps, whichever way they are accessed."""
from contracts.store import *

NT, SM = "streamtasks.system.named_topic_manager", "streamtasks.system.secret_manager"
UUID = ANY("uuid"); META = MAP(STR, ANY("json"))
TREC = REC(NT + ":NamedTopicModel", name=STR, metadata=META)
SREC = REC(SM + ":SecretModel", id=UUID, value=STR)
UTEXT = z3.Function("uuid_text", sort(UUID), z3.StringSort()); UPARSE = z3.Function("uuid_parse", z3.StringSort(), sort(UUID))
IDS_OF = z3.Function("fresh_topic_id", z3.IntSort(), z3.IntSort())

class Kind:
  """named topics or secrets"""
  def __init__(self, itp, which):
    self.itp, self.topics = itp, which == "topics"
    self.mod, self.cls = (NT, "NamedTopicManager") if self.topics else (SM, "SecretManager")
    self.model = self.mod + ":" + ("NamedTopicModel" if self.topics else "SecretModel")
    self.rec, self.key = (TREC, "name") if self.topics else (SREC, "id")
    self.kt = STR if self.topics else UUID
    self.store = Store(itp, which, self.model, self.rec, self.key)
    t = itp.fresh_const("topic_map", sort(MAP(STR, INT)))
    self.map0 = t
    f = {"db": self.store.v, "client": itp.fresh("client", ANY("client"))}
    if self.topics: f["topic_map"] = itp.new_cont("map", MAP(STR, INT), t)
    self.o = itp.new_obj(itp.cls_by_qual(self.mod + ":" + self.cls), f)
    u = z3.Const("u!uuid", sort(UUID)); itp.assume(M.mk_forall([u], UPARSE(UTEXT(u)) == u, [[UTEXT(u)]]))
    itp.st.ghost["field:SecretModel.id"] = Sym(itp.fresh_const("given_id", sort(UUID)), UUID)
    itp.st.ghost["field:SecretRequestModel.id"] = Sym(itp.fresh_const("asked_id", sort(UUID)), UUID)
    itp.st.ghost["field:NamedTopicModel.metadata"] = itp.new_cont("map", META, itp.fresh_const("given_metadata", sort(META)))
    itp.any_methods[("uuid", "__jsonable__")] = lambda itp_, s, a, k: Sym(UTEXT(s.t), STR)
    def parse(itp_, a, k):
      if itp.choose(2): itp.raise_py(ValueError, "badly formed")
      return Sym(UPARSE(itp.to_term(a[0], STR)), UUID)
    itp.ext_models["uuid.UUID"] = parse
    self.memo = []
    serve.decoding(itp, memo=self.memo)
    orig = itp.decode_any
    def vj(itp_, a, k): raise Unsupported("")
    self.dump()
  def dump(self):
    itp = self.itp
    def dp(itp_, s, a, k): return itp.fresh("dumped", ANY("dumped")) if not itp.st.ghost.__setitem__("dumped_list", itp.to_term(a[0], self.store.L)) else None
    itp.any_methods[("list_adapter", "dump_python")] = itp.any_methods[("list_adapter", "dump_json")] = dp
    for n in ("NamedTopicListModel", "SecretModelListModel"): itp.models["const:" + self.mod + ":" + n] = lambda *a: itp.fresh("adapter", ANY("list_adapter"))
  def fetch(self): return serve.capture(self.itp, lambda: self.itp.call(self.itp.getattr(self.o, "run_fetch_server"), []))
  def web(self): return web(self.itp, lambda: self.itp.call(self.itp.getattr(self.o, "run_web_server"), []))
  def given(self):
    """(key, record) of the decoded body"""
    m = self.memo[0]
    key = self.itp.to_term(self.itp.getattr(m, self.key), self.kt)
    return key, (self.itp.to_term(m, self.rec) if self.itp.class_of(m).name in ("NamedTopicModel", "SecretModel") else None)
  def check_answer(self, label, body, e, wire):
    """the body is the entry e; over the network its id is text"""
    itp = self.itp
    b = itp.deref(body)
    d = itp.content(b).d if isinstance(b, LocRef) and isinstance(itp.content(b), PyDictC) else None
    if d is None or set(d) != ({"name", "metadata"} if self.topics else {"id", "value"}): itp.check(label, False); return
    ok = []
    for f, v in d.items():
      want = r_get(self.rec, f, e)
      if f == "id":
        ok.append(itp.eq(v, Sym(UTEXT(want), STR)) if isinstance(v, Sym) and v.ty is STR else False)
      else: ok.append(itp.eq(v, Sym(want, STR) if f != "metadata" else itp.new_cont("map", META, want)))
    itp.check(label, itp.bz(itp.conj(ok)))

def refused(itp, K, st, r, label):
  """what a refused body may do"""
  K.store.check_unchanged(label + ": leaves everything as it is")
  itp.check(label + ": nothing is answered by the handler", st != "ok")

def s_put(which, via):
  def s(itp):
    K = Kind(itp, which)
    if via == "fetch":
      H = K.fetch(); h = H.get("put_named_topic" if K.topics else "put_secret"); arg = serve.request(itp)
    else:
      H = K.web(); h = next((f for (m, p), f in H.items() if m == "put"), None); arg = context(itp)
    itp.check("there is a route for it", h is not None)
    if h is None: return
    st, r = serve.run_handler(itp, h, arg)
    if not K.memo: refused(itp, K, st, r, "a malformed request"); return
    itp.check("storing succeeds", st == "ok")
    if st != "ok": return
    key, rec = K.given()
    K.store.check_replaced("storing", key, rec)
    itp.check("storing is saved", K.store.saved())
    A = serve.answers(itp) if via == "fetch" else itp.st.ghost["web"]
    itp.check("one answer", len(A) == 1)
    if len(A) == 1 and via == "fetch":
      itp.check("no error", A[0][0] is False)
      K.check_answer("the answer is the stored entry", A[0][1], rec, True)
    if K.topics: itp.check("topic ids stay", itp.to_term(itp.getattr(K.o, "topic_map"), MAP(STR, INT)) == K.map0)
  return s

def s_delete(which, via):
  def s(itp):
    K = Kind(itp, which)
    pk = "name" if K.topics else "id"
    P = itp.fresh("param", STR)
    if via == "fetch":
      H = K.fetch(); h = H.get("delete_named_topic" if K.topics else "delete_secret"); arg = serve.request(itp)
    else:
      H = K.web(); h = next((f for (m, p), f in H.items() if m == "delete"), None); arg = context(itp, {pk: P})
    itp.check("there is a route for it", h is not None)
    if h is None: return
    st, r = serve.run_handler(itp, h, arg)
    if via == "fetch":
      if not K.memo: refused(itp, K, st, r, "a malformed request"); return
      key = K.given()[0]
    else: key = P.t if K.topics else UPARSE(P.t)
    if st != "ok":
      K.store.check_unchanged("a refused deletion leaves everything as it is")
      itp.check("only an id that is none is refused", via == "web" and not K.topics and exc_is(itp, r, ValueError)); return
    K.store.check_replaced("deleting", key)
    itp.check("deleting is saved", K.store.saved())
    A = serve.answers(itp) if via == "fetch" else itp.st.ghost["web"]
    itp.check("one answer, no error", len(A) <= 1 and all(x[0] is not True for x in A))
  return s

def s_get(which, via):
  def s(itp):
    K = Kind(itp, which); P = itp.fresh("param", STR)
    if via == "fetch":
      H = K.fetch(); h = H.get("get_named_topic" if K.topics else "get_secret"); arg = serve.request(itp)
    else:
      H = K.web(); h = next((f for (m, p), f in H.items() if m == "get" and "{" in p), None); arg = context(itp, {"name": P})
    itp.check("there is a route for it", h is not None)
    if h is None: return
    st, r = serve.run_handler(itp, h, arg)
    K.store.check_unchanged("fetching changes nothing")
    if via == "fetch" and not K.memo: itp.check("a malformed request is refused", st != "ok"); return
    key = K.given()[0] if via == "fetch" else P.t
    itp.check("fetching is answered", st == "ok")
    if st != "ok": return
    i = z3.Int("i!get"); t = K.store.t0
    present = z3.Exists([i], z3.And(0 <= i, i < K.store.n(t), K.store.k(K.store.at(t, i)) == key))
    A = serve.answers(itp) if via == "fetch" else itp.st.ghost["web"]
    itp.check("one answer", len(A) == 1)
    if len(A) != 1: return
    missing = A[0][0] is True if via == "fetch" else A[0][0] == "status"
    if missing:
      itp.check("not-found exactly if there is no such entry", z3.Not(present))
      if via == "web": itp.check("as not found", A[0][1] == 404)
      else: itp.check("as not found", notfound(itp, A[0][1]))
      return
    j = itp.fresh_const("j", z3.IntSort())
    itp.assume(z3.And(0 <= j, j < K.store.n(t), K.store.k(K.store.at(t, j)) == key))  # the stored entry, if any
    K.check_answer("the answer is the stored entry", A[0][1] if via == "fetch" else A[0][2], K.store.at(t, j), via == "fetch")
  return s
def notfound(itp, b):
  c = itp.getattr(itp.getattr(itp.cls_by_qual("streamtasks.client.fetch:FetchErrorStatusCode"), "NOT_FOUND"), "value")
  b = itp.deref(b)
  return isinstance(b, tuple) and len(b) == 2 and itp.bz(itp.eq(b[0], c))

def s_list(via):
  def s(itp):
    K = Kind(itp, "topics")
    if via == "fetch": h = K.fetch().get("list_named_topics"); arg = serve.request(itp)
    else: h = next((f for (m, p), f in K.web().items() if m == "get" and "{" not in p), None); arg = context(itp)
    itp.check("there is a route for it", h is not None)
    if h is None: return
    st, r = serve.run_handler(itp, h, arg)
    A = serve.answers(itp) if via == "fetch" else itp.st.ghost["web"]
    itp.check("the list is answered", st == "ok" and len(A) == 1 and A[0][0] is not True)
    itp.check("it is all entries", "dumped_list" in itp.st.ghost and itp.bz(itp.st.ghost["dumped_list"] == K.store.t0))
    K.store.check_unchanged("listing changes nothing")
  return s

def s_resolve(itp):
  K = Kind(itp, "topics"); m0 = K.map0; T = MAP(STR, INT)
  # ids given out so far are all different, and the network never gives one twice (P10)
  a, b = z3.Const("a!nm", z3.StringSort()), z3.Const("b!nm", z3.StringSort())
  inj = lambda m, a, b: z3.Implies(z3.And(sel(m_dom(T, m), a), sel(m_dom(T, m), b), sel(m_val(T, m), a) == sel(m_val(T, m), b)), a == b)
  itp.assume(M.mk_forall([a, b], inj(m0, a, b), [[sel(m_val(T, m0), a), sel(m_val(T, m0), b)]]))
  def ids(itp_, s, args, k):
    def th():
      itp.yield_point("request_topic_ids")
      n = args[0] if args else k["count"]
      x = itp.fresh("new_id", INT)
      y = z3.Const("y!nm", z3.StringSort())
      itp.assume(M.mk_forall([y], z3.Implies(sel(m_dom(T, m0), y), sel(m_val(T, m0), y) != x.t), [[sel(m_dom(T, m0), y)]]))
      itp.check("ids are asked for one by one", itp.bz(itp.eq(n, 1)))
      itp.st.ghost["new"] = x.t
      return itp.new_list([x])
    return CoroV(th)
  itp.any_methods[("client", "request_topic_ids")] = ids
  h = K.fetch().get("resolve_named_topic"); itp.check("there is a route for it", h is not None)
  if h is None: return
  st, r = serve.run_handler(itp, h, serve.request(itp))
  m1 = itp.to_term(itp.getattr(K.o, "topic_map"), T)
  if not K.memo: itp.check("a malformed request changes nothing", z3.And(K.store.t == K.store.t0, m1 == m0)); return
  A = serve.answers(itp); key = itp.to_term(itp.getattr(K.memo[0], "name"), STR)
  itp.check("resolving is answered", st == "ok" and len(A) == 1 and A[0][0] is False)
  if st != "ok" or len(A) != 1: return
  t = itp.to_term(serve.body_get(itp, A[0][1], "topic"), INT)
  itp.check("the answer is the id of the name from now on", z3.And(sel(m_dom(T, m1), key), sel(m_val(T, m1), key) == t))
  itp.check("a name that has an id keeps it", z3.Implies(sel(m_dom(T, m0), key), t == sel(m_val(T, m0), key)))
  x = itp.fresh_const("other", z3.StringSort()); y = itp.fresh_const("other2", z3.StringSort())
  itp.check("other names keep their ids", z3.Implies(x != key, z3.And(sel(m_dom(T, m0), x) == sel(m_dom(T, m1), x), z3.Implies(sel(m_dom(T, m0), x), sel(m_val(T, m1), x) == sel(m_val(T, m0), x)))))
  itp.check("different names have different ids", inj(m1, x, y))
  i = itp.fresh_const("i", z3.IntSort()); t0 = K.store.t0
  itp.check("stored entries stay", z3.Implies(z3.And(0 <= i, i < K.store.n(t0)), K.store.has(K.store.t, K.store.at(t0, i))))
  K.store.check_unique("there is at most one entry per name")

def s_client(op):
  """the client half of the secret manager"""
  def s(itp):
    K = Kind(itp, "secrets"); log = []
    vtext = itp.fresh("value", STR); fl = Sym(itp.fresh_const("answered_id", sort(UUID)), UUID)
    def fetch(itp_, s_, a, k):
      def th(): log.append(tuple(a)); return itp.fresh("answer", ANY("answer"))
      return CoroV(th)
    itp.any_methods[("client", "fetch")] = fetch
    addr = itp.fresh("address_name", STR)
    c = itp.new_obj(itp.cls_by_qual(SM + ":SecretManagerClient"), {"client": itp.fresh("client", ANY("client")), "address_name": addr})
    u = Sym(itp.fresh_const("secret_id", sort(UUID)), UUID)
    st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(c, op), [u] + ([vtext] if op == "put_secret" else []))))
    itp.check("one request", len(log) == 1)
    if len(log) != 1: return
    itp.check("to the manager, of its kind", itp.bz(itp.eq(log[0][0], addr)) and log[0][1] == {"resolve_secret": "get_secret"}.get(op, op))
    x = serve.body_get(itp, log[0][2], "id")
    itp.check("it names the secret, as text", itp.bz(itp.eq(x, Sym(UTEXT(u.t), STR))) if isinstance(x, Sym) and x.ty is STR else False)
    if op == "put_secret": itp.check("and carries its value", itp.bz(itp.eq(serve.body_get(itp, log[0][2], "value"), vtext)))
    if op == "resolve_secret" and st == "ok": itp.check("the answer is the value", len(K.memo) == 1 and itp.bz(itp.eq(r, itp.getattr(K.memo[0], "value"))))
  return s

SCENARIOS = [Scn(f"{n} {w} over {v}", f(w, v), [f"{NT if w == 'topics' else SM}:{'NamedTopicManager' if w == 'topics' else 'SecretManager'}.run_{'fetch' if v == 'fetch' else 'web'}_server"]) for n, f in (("put", s_put), ("delete", s_delete), ("get", s_get)) for w in ("topics", "secrets") for v in ("fetch", "web") if not (n == "get" and w == "secrets" and v == "web")]
SCENARIOS += [Scn("list over fetch", s_list("fetch"), [NT + ":NamedTopicManager.run_fetch_server"]), Scn("list over web", s_list("web"), [NT + ":NamedTopicManager.run_web_server"]), Scn("resolve_named_topic", s_resolve, [NT + ":NamedTopicManager.run_fetch_server"])]
SCENARIOS += [Scn("client " + op, s_client(op), [SM + ":SecretManagerClient." + op]) for op in ("resolve_secret", "delete_secret", "put_secret")]
ASSUMPTIONS = ["requests over fetch are handled one after another (P12); a web request is a step that interleaves only where it waits", "the network hands out no topic id twice (P10)", "the store follows its contract (P22)", "uuid.UUID inverts str(UUID)"]
