"""P17: ASGI values cross the bridge unchanged. The codec by structural induction: nested values are opaque, and the recursive calls on them are replaced by the induction hypothesis (what is decoded from an encoded part is that part)."""
from contracts.net import *

A = "streamtasks.asgi"
VAL, ENC = ANY("val"), ANY("enc")
E = z3.Function("enc", sort(VAL), sort(ENC))
LV, LE, MV, ME = LIST(VAL), LIST(ENC), MAP(STR, VAL), MAP(STR, ENC)
VT = A + ":ValueTransformer"
HEX = z3.Function("hex", sort(BYTES), z3.StringSort())
UNHEX = z3.Function("unhex", z3.StringSort(), sort(BYTES))

def hypothesis(itp):
  x = z3.Const("x!enc", sort(VAL)); D = z3.Function("dec", sort(ENC), sort(VAL))
  itp.assume(M.mk_forall([x], D(E(x)) == x, [[E(x)]]))
  def ann(itp_, a, k):
    v = itp.deref(a[-1])
    itp.check("only parts of the value are encoded on their own", isinstance(v, Sym) and v.ty == VAL)
    return Sym(E(v.t), ENC)
  def dea(itp_, a, k):
    v = itp.deref(a[-1])
    itp.check("only encoded parts are decoded on their own", isinstance(v, Sym) and v.ty == ENC)
    return Sym(D(v.t), VAL)
  itp.models[VT + ".annotate_value"] = ann
  itp.models[VT + ".deannotate_value"] = dea
  itp.models["bytes.hex"] = lambda itp_, a, k: hexed(itp, a[0])
  itp.ext_models["bytes.fromhex"] = lambda itp_, a, k: Sym(UNHEX(itp.to_term(a[0], STR)), BYTES)
def hexed(itp, b):
  t = itp.to_term(b, BYTES)
  itp.assume(UNHEX(HEX(t)) == t)
  return Sym(HEX(t), STR)

KINDS = ["text", "number", "decimal", "boolean", "nothing", "bytes", "list", "mapping"]
def value(itp, k):
  if k == "text": return itp.fresh("v", STR)
  if k == "number": return itp.fresh("v", INT)
  if k == "decimal": return itp.fresh("v", REAL)
  if k == "boolean": return itp.fresh("v", BOOL)
  if k == "nothing": return None
  if k == "bytes": return itp.fresh("v", BYTES)
  if k == "list":
    t = itp.fresh_const("v", sort(LV)); itp.assume(l_len(LV, t) >= 0); return itp.new_cont("list", LV, t)
  return itp.new_cont("map", MV, itp.fresh_const("v", sort(MV)))

def raw(itp, cls, name, v):
  """the body of a codec function on v, with calls on parts by hypothesis"""
  c = itp.cls_by_qual(A + ":" + cls)
  b = itp.getattr(c, name)
  return itp.run_fn(b.fn, [c, v], {})

def carried(itp, v, binary, depth=3):
  """only what the wire carries as it is: no tuples or sets, only text keys"""
  v = itp.resolve(v)
  if isinstance(v, Sym):
    if v.ty.kind == "any": return v.ty == ENC
    return v.ty.kind in ("str", "int", "real", "bool") or binary and v.ty.kind == "bytes" or v.ty in (LE, ME)
  if isinstance(v, LocRef):
    c = itp.content(v)
    if isinstance(c, PyListC): return all(carried(itp, x, binary) for x in c.items)
    if isinstance(c, PyDictC): return all(isinstance(k, str) and carried(itp, x, binary) for k, x in c.d.items())
    return c.ty is None or c.ty in (LE, ME)
  return v is None and binary or isinstance(v, (str, int, float)) or binary and isinstance(v, bytes)

def same(itp, a, k, v):
  a = itp.resolve(a)
  if k == "nothing": return a is None
  if k in ("list", "mapping"):
    if not isinstance(a, LocRef) or M.coll_kind(itp.content(a)) != {"list": "list", "mapping": "map"}[k]: return False
    ty = LV if k == "list" else MV
    x, y = itp.to_term(a, ty), itp.to_term(v, ty)
    if k == "list":
      i = itp.fresh_const("i", z3.IntSort())
      return z3.And(l_len(LV, x) == l_len(LV, y), z3.Implies(z3.And(i >= 0, i < l_len(LV, y)), sel(l_arr(LV, x), i) == sel(l_arr(LV, y), i)))
    i = itp.fresh_const("k", z3.StringSort())
    return z3.And(sel(m_dom(MV, x), i) == sel(m_dom(MV, y), i), z3.Implies(sel(m_dom(MV, y), i), sel(m_val(MV, x), i) == sel(m_val(MV, y), i)))
  want = {"text": "str", "number": "int", "decimal": "real", "boolean": "bool", "bytes": "bytes"}[k]
  if not (isinstance(a, Sym) and a.ty.kind == want): return False
  return itp.bz(itp.eq(a, v))

def s_codec(cls, k):
  def s(itp):
    hypothesis(itp)
    v = value(itp, k)
    st, e = attempt(itp, lambda: raw(itp, cls, "annotate_value", v))
    itp.check("it is encoded", st == "ok")
    if st != "ok": return
    itp.check("the encoded form is carried by the wire as it is", carried(itp, e, True))
    st, d = attempt(itp, lambda: raw(itp, cls, "deannotate_value", e))
    itp.check("it is decoded", st == "ok")
    if st == "ok": itp.check("the decoded value equals the given one", same(itp, d, k, v))
  return s

def s_unknown(cls):
  def s(itp):
    hypothesis(itp)
    v = itp.fresh("v", ANY("object"))
    itp.any_methods[("object", "__isinstance__")] = lambda itp_, x, a, k: False
    itp.any_methods[("object", "__type__")] = lambda itp_, x, a, k: TypeV("object")
    st, e = attempt(itp, lambda: raw(itp, cls, "annotate_value", v))
    itp.check("anything else is encoded", st == "ok")
    if st != "ok": return
    itp.check("its encoded form is carried by the wire as it is", carried(itp, e, True))
    st, d = attempt(itp, lambda: raw(itp, cls, "deannotate_value", e))
    itp.check("anything else arrives as nothing", st == "ok" and d is None)
  return s

# ------------------------------------------------------------------ the bridge
def log(itp, *x): itp.st.ghost["log"] = itp.st.ghost.get("log", ()) + (x,)
def logged(itp, k): return [x for x in itp.st.ghost.get("log", ()) if x[0] == k]
RD = "streamtasks.net.serialization:RawData"
EM = A + ":ASGIEventMessage"
def client(itp):
  itp.any_methods[("client", "send_to")] = lambda itp_, s, a, k: CoroV(lambda: log(itp, "sent", a[0] if a else k["endpoint"], a[1] if len(a) > 1 else k["data"]))
  itp.attr_models[("client", "address")] = lambda itp_, s: Sym(z3.Int("own_address"), INT)
  def port(itp_, s, a, k): p = itp.fresh("port", INT); log(itp, "port", p); return p
  itp.any_methods[("client", "get_free_port")] = port
  itp.any_methods[("client", "enable_receiver")] = lambda itp_, s, a, k: CoroV(lambda: log(itp, "enabled", a[0]))
  itp.any_methods[("client", "disable_receiver")] = lambda itp_, s, a, k: CoroV(lambda: log(itp, "disabled", a[0]))
  itp.ext_models["asyncio.Queue"] = lambda itp_, a, k: itp.fresh("queue", ANY("queue"))
  itp.ext_models["asyncio.Event"] = lambda itp_, a, k: itp.fresh("event", ANY("event"))
  itp.ext_models["asyncio.sleep"] = lambda itp_, a, k: CoroV(lambda: None)
  itp.models[RD] = lambda itp_, a, k: itp.new_obj(itp.cls_by_qual(RD), {"_data": a[0], "_raw": None})
  return itp.fresh("client", ANY("client"))
def sent_message(itp, x):
  """(events, closed) of a sent payload"""
  b = itp.getattr(x, "_data") if isinstance(itp.deref(x), ObjRef) else None
  b = itp.deref(b)
  if not (isinstance(b, LocRef) and isinstance(itp.content(b), PyDictC)): return None, None
  d = itp.content(b).d
  ev = itp.deref(d.get("events"))
  return (list(itp.content(ev).items) if isinstance(ev, LocRef) and isinstance(itp.content(ev), PyListC) else None), d.get("closed")

def s_send(itp):
  hypothesis(itp); c = client(itp)
  ep = (itp.fresh("a", INT), itp.fresh("p", INT))
  o = itp.call(itp.cls_by_qual(A + ":ASGIEventSender"), [c, ep])
  end = itp.choose(2); e = itp.fresh("event", VAL)
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "close" if end else "send"), [] if end else [e])))
  L = logged(itp, "sent")
  itp.check("one message is sent", st == "ok" and len(L) == 1)
  if not L: return
  itp.check("to the other side of the bridge", itp.bz(itp.eq(L[0][1], ep)))
  ev, closed = sent_message(itp, L[0][2])
  if end: itp.check("closing is told, without events", ev == [] and closed is True); return
  itp.check("it carries exactly the event, encoded", ev is not None and len(ev) == 1 and isinstance(ev[0], Sym) and ev[0].ty == ENC and itp.bz(itp.eq(ev[0], Sym(E(e.t), ENC))))
  itp.check("an event does not close the connection", closed is None or closed is False)

def s_on_message(itp):
  c = client(itp); own = itp.fresh("own", INT)
  o = itp.call(itp.cls_by_qual(A + ":ASGIEventReceiver"), [c, own])
  itp.any_methods[("queue", "put_nowait")] = lambda itp_, s, a, k: log(itp, "put", a[0])
  bad = itp.choose(2)
  m = itp.fresh("decoded", ANY("event_message"))
  raw_ = itp.fresh("body", ANY("body"))
  def validate(itp_, a, k):
    log(itp, "validated", a[0])
    if bad: itp.raise_py(itp.loader and __import__("pydv.interp", fromlist=["EXT_EXC"]).EXT_EXC["pydantic.ValidationError"], "invalid")
    return m
  itp.models[EM + ".model_validate"] = validate
  p = itp.fresh("port", INT)
  kind = itp.choose(3)
  if kind == 0: msg = itp.new_obj(mcls(itp, "TopicControlMessage"), {"topic": itp.fresh("topic", INT), "paused": itp.fresh("paused", BOOL)})
  else:
    data = itp.new_obj(itp.cls_by_qual(RD), {"_data": raw_, "_raw": None}) if kind == 1 else itp.fresh("data", ANY("other"))
    itp.any_methods[("other", "__isinstance__")] = lambda itp_, x, a, k: False
    msg = itp.new_obj(mcls(itp, "AddressedMessage"), {"address": itp.fresh("addr", INT), "port": p, "data": data})
  st, r = attempt(itp, lambda: itp.call(itp.getattr(o, "on_message"), [msg]))
  itp.check("messages never raise", st == "ok")
  L, V = logged(itp, "put"), logged(itp, "validated")
  mine = z3.And(z3.BoolVal(kind == 1 and not bad), p.t == own.t)
  itp.check("exactly the well-formed messages to the own port are received", mine if L else z3.Not(mine))
  if L: itp.check("once, as they were sent", len(L) == 1 and itp.deref(L[0][1]) == itp.deref(m) and len(V) == 1 and itp.bz(itp.eq(V[0][1], raw_)))

def s_init(itp):
  hypothesis(itp)
  from contracts import serve
  c = client(itp)
  itp.models["streamtasks.utils:AsyncTaskManager"] = lambda itp_, a, k: itp.fresh("tasks", ANY("tasks"))
  itp.any_methods[("tasks", "cancel_all")] = lambda itp_, s, a, k: CoroV(lambda: None)
  o = itp.call(itp.cls_by_qual(A + ":ASGIAppRunner"), [c, itp.fresh("app", ANY("app"))])
  H = serve.capture(itp, lambda: itp.call(itp.getattr(o, "run"), []))
  itp.check("connections can be opened", list(H) == ["init"])
  if "init" not in H: return
  itp.st.ghost["field:ASGIInitRequest.scope"] = itp.fresh("scope", ENC)
  memo = []
  serve.decoding(itp, refuse=False, memo=memo)
  req = serve.request(itp)
  def start(itp_, a, k): log(itp, "start", a[1])
  itp.models[A + ":ASGIAppRunner._start_connection"] = start
  st, r = serve.run_handler(itp, H["init"], req)
  L = logged(itp, "start")
  itp.check("opening starts one connection", st == "ok" and len(L) == 1 and len(memo) == 1)
  if not L or not memo: return
  cfg = L[0][1]
  D = z3.Function("dec", sort(ENC), sort(VAL))
  itp.check("with the scope that was sent", itp.bz(itp.eq(itp.getattr(cfg, "scope"), Sym(D(itp.getattr(memo[0], "scope").t), VAL))))
  itp.check("answering to where the request says", itp.bz(itp.eq(itp.getattr(cfg, "remote_endpoint"), (itp.getattr(memo[0], "address"), itp.getattr(memo[0], "port")))))
  P = logged(itp, "port"); an = serve.answers(itp)
  itp.check("on a port of its own, which is answered", len(P) == 1 and itp.bz(itp.eq(itp.getattr(cfg, "port"), P[0][1])) and len(an) == 1 and an[0][0] is False and itp.bz(itp.eq(serve.body_get(itp, an[0][1], "port"), P[0][1])))

def message(itp, n, closed):
  es = [itp.fresh("sent", ENC) for _ in range(n)]
  return es, itp.new_obj(itp.cls_by_qual(EM), {"events": itp.new_list(es), "closed": closed})
DEC = lambda e: Sym(z3.Function("dec", sort(ENC), sort(VAL))(e.t), VAL)

def s_connection(itp):
  """the application's side: what receive() gives and send() does, in any state of the connection"""
  hypothesis(itp); c = client(itp)
  itp.any_methods[("tasks", "create")] = lambda itp_, s, a, k: log(itp, "task", a[0])
  o = itp.new_obj(itp.cls_by_qual(A + ":ASGIAppRunner"), {"_client": c, "_app": itp.fresh("app", ANY("app")), "_port": 1, "_connection_tasks": itp.fresh("tasks", ANY("tasks"))})
  scope, ep, port = itp.fresh("scope", VAL), (itp.fresh("a", INT), itp.fresh("p", INT)), itp.fresh("port", INT)
  cfg = itp.new_obj(itp.cls_by_qual(A + ":ASGIConnectionConfig"), {"scope": scope, "port": port, "remote_endpoint": ep})
  n = itp.choose(2); es, msg = message(itp, n, None)
  # nothing is taken; the oldest of the waiting events is; a message is waited for
  mode = itp.choose(3)
  waiting = (itp.fresh("w1", VAL), itp.fresh("w2", VAL)) if mode == 1 else ()
  itp.models["streamtasks.client.receiver:Receiver.get"] = lambda itp_, a, k: msg
  itp.st.ghost["es"] = es; itp.event_rule = Receive
  ev = itp.fresh("own_event", VAL); crash = itp.choose(2)
  # the queue of decoded events: those put and not yet taken, oldest first
  itp.st.ghost["q"] = waiting
  def put(itp_, s, a, k): itp.st.ghost["q"] = itp.st.ghost["q"] + (a[0],); log(itp, "put", a[0])
  def get():
    q = itp.st.ghost["q"]
    if not q: log(itp, "waits"); itp.raise_py(asyncio_cancelled(), "waits for ever")
    itp.st.ghost["q"] = q[1:]; return q[0]
  itp.any_methods[("queue", "put")] = lambda itp_, s, a, k: CoroV(lambda: put(itp_, s, a, k))
  itp.any_methods[("queue", "put_nowait")] = put
  itp.any_methods[("queue", "get")] = lambda itp_, s, a, k: CoroV(get)
  itp.any_methods[("queue", "empty")] = lambda itp_, s, a, k: not itp.st.ghost.get("q", ())
  stop = itp.fresh("stopped", BOOL)
  itp.any_methods[("event", "is_set")] = lambda itp_, s, a, k: False
  itp.any_methods[("event", "set")] = lambda itp_, s, a, k: log(itp, "stop")
  def app(itp_, s, a, k):
    def th():
      log(itp, "app", a[0])
      itp.await_(itp.call(a[2], [ev]))
      if mode:
        r = itp.await_(itp.call(a[1], []))
        log(itp, "received", r)
      if crash: itp.raise_py(RuntimeError, "application fails")
    return CoroV(th)
  itp.any_methods[("app", "__call__")] = app
  st, r = attempt(itp, lambda: itp.call(itp.getattr(o, "_start_connection"), [cfg]))
  T = logged(itp, "task")
  itp.check("one task per connection", st == "ok" and len(T) == 1)
  if not T: return
  st, r = attempt(itp, lambda: itp.await_(T[0][1]))
  L = itp.st.ghost["log"]
  itp.check("the application is run once, with the scope", [itp.bz(itp.eq(x[1], scope)) for x in L if x[0] == "app"][0] if len(logged(itp, "app")) == 1 else False)
  S = logged(itp, "sent")
  itp.check("its event and then the end are sent to the other side", len(S) == 2 and itp.bz(itp.conj([itp.eq(x[1], ep) for x in S])))
  if len(S) == 2:
    e0, c0 = sent_message(itp, S[0][2]); e1, c1 = sent_message(itp, S[1][2])
    itp.check("the event as given", e0 is not None and len(e0) == 1 and itp.bz(itp.eq(e0[0], Sym(E(ev.t), ENC))) and not c0)
    itp.check("the end is told when the application is done", e1 == [] and c1 is True)
  R = logged(itp, "received")
  if mode == 1:
    itp.check("the application receives the oldest waiting event", len(R) == 1 and itp.bz(itp.eq(R[0][1], waiting[0])))
    itp.check("and the others stay", len(itp.st.ghost["q"]) == 1 and itp.bz(itp.eq(itp.st.ghost["q"][0], waiting[1])))
class Receive:
  @staticmethod
  def after(itp):
    q = itp.st.ghost["q"]; es = itp.st.ghost["es"]
    itp.check("receiving: exactly the events of the message wait to be taken", len(q) == len(es) and itp.bz(itp.conj([itp.eq(x, DEC(e)) for x, e in zip(q, es)])))
def asyncio_cancelled():
  import asyncio
  return asyncio.CancelledError

class OneRound:
  @staticmethod
  def after(itp): pass

def s_proxy(itp):
  """the server's side: the scope and every event go over, in both directions"""
  hypothesis(itp); c = client(itp)
  fails = itp.choose(1)
  def fetch(itp_, s, a, k):
    def th(): log(itp, "fetch", a[0], a[1], a[2]); return itp.new_dict({"port": Sym(z3.Int("far_port"), INT)})
    return CoroV(th)
  itp.any_methods[("client", "fetch")] = fetch
  ep = (itp.fresh("a", INT), itp.fresh("p", INT))
  o = itp.new_obj(itp.cls_by_qual(A + ":ASGIProxyApp"), {"_client": c, "_remote_endpoint": ep})
  scope = itp.fresh("scope", VAL); ev = itp.fresh("event", VAL)
  tasks = []
  def create(itp_, a, k): tasks.append(a[0]); t = itp.fresh("task", ANY("task")); return t
  itp.ext_models["asyncio.create_task"] = create
  itp.any_methods[("task", "cancel")] = lambda itp_, s, a, k: None
  n, closed = itp.choose(2), [None, True][itp.choose(2)]
  es, msg = message(itp, n, closed)
  itp.models["streamtasks.client.receiver:Receiver.get"] = lambda itp_, a, k: msg
  itp.st.ghost["closed"] = False
  itp.any_methods[("event", "is_set")] = lambda itp_, s, a, k: itp.st.ghost["closed"]
  def close(itp_, s, a, k): itp.st.ghost["closed"] = True
  itp.any_methods[("event", "set")] = close
  kind = itp.fresh("type", STR)
  itp.any_methods[("val", "get")] = lambda itp_, s, a, k: kind
  which = itp.choose(2)
  itp.event_rule = OneRound
  def wait(itp_, s, a, k):
    def th():
      L = [x[0] for x in itp.st.ghost["log"]]
      itp.check("the receiver is on before the other side starts", "enabled" in L and "fetch" in L and L.index("enabled") < L.index("fetch"))
      F = logged(itp, "fetch")
      itp.check("the connection is opened once", len(F) == 1 and F[0][2] == "init")
      if len(F) != 1: return
      itp.check("at the other side", itp.bz(itp.eq(F[0][1], ep)))
      b = serve_body(itp, F[0][3])
      itp.check("the scope goes over", b is not None and itp.bz(itp.eq(b.get("scope"), Sym(E(scope.t), ENC))))
      P = logged(itp, "port")
      itp.check("with the own address and port", b is not None and len(P) == 1 and itp.bz(itp.conj([itp.eq(b.get("port"), P[0][1]), itp.eq(b.get("address"), Sym(z3.Int("own_address"), INT))])))
      itp.check("both directions are served", len(tasks) == 2)
      n0 = len(itp.st.ghost["log"])
      st_, r_ = attempt(itp, lambda: itp.await_(tasks[which]))
    return CoroV(th)
  itp.any_methods[("event", "wait")] = wait
  def recv(itp_, s, a, k):
    def th(): log(itp, "recv"); return ev
    return CoroV(th)
  itp.any_methods[("recv", "__call__")] = recv
  itp.any_methods[("send", "__call__")] = lambda itp_, s, a, k: CoroV(lambda: log(itp, "given", a[0]))
  def after(itp_):
    if which_is_up(itp):
      S = logged(itp, "sent")
      itp.check("upwards: the received event goes over", len(S) == 1 and itp.bz(itp.eq(S[0][1], (ep[0], Sym(z3.Int("far_port"), INT)))))
      if S:
        e0, c0 = sent_message(itp, S[0][2])
        itp.check("upwards: as it was", e0 is not None and len(e0) == 1 and itp.bz(itp.eq(e0[0], Sym(E(ev.t), ENC))))
      end = z3.Or(kind.t == z3.StringVal("http.disconnect"), kind.t == z3.StringVal("websocket.disconnect"))
      itp.check("upwards: ends exactly with the disconnect", end if itp.st.ghost["closed"] else z3.Not(end))
    else:
      G = logged(itp, "given")
      itp.check("downwards: exactly the events of the message are given", len(G) == n and itp.bz(itp.conj([itp.eq(g[1], DEC(e)) for g, e in zip(G, es)])))
      itp.check("downwards: ends exactly when the other side closed", itp.st.ghost["closed"] == (closed is True))
  def which_is_up(itp): return bool(logged(itp, "recv"))
  OneRound.after = staticmethod(after)
  st, r = attempt(itp, lambda: itp.await_(itp.call(o, [scope, itp.fresh("receive", ANY("recv")), itp.fresh("sendf", ANY("send"))])))
def serve_body(itp, b):
  b = itp.deref(b)
  return itp.content(b).d if isinstance(b, LocRef) and isinstance(itp.content(b), PyDictC) else None

SCENARIOS = [Scn(f"{cls}: {k}", s_codec(cls, k), [VT + ".annotate_value", VT + ".deannotate_value"]) for cls in ("JSONValueTransformer", "MessagePackValueTransformer") for k in KINDS] + [Scn(f"{cls}: anything else", s_unknown(cls), [VT + ".annotate_value", VT + ".deannotate_value"]) for cls in ("JSONValueTransformer", "MessagePackValueTransformer")] + [Scn("ASGIEventSender", s_send, [A + ":ASGIEventSender.send", A + ":ASGIEventSender.close", A + ":ASGIEventSender._send"]), Scn("ASGIEventReceiver.on_message", s_on_message, [A + ":ASGIEventReceiver.on_message"]), Scn("opening a connection", s_init, [A + ":ASGIAppRunner.run"]), Scn("the application's side", s_connection, [A + ":ASGIAppRunner._start_connection"]), Scn("the server's side", s_proxy, [A + ":ASGIProxyApp.__call__"])]
ASSUMPTIONS = ["the wire (msgpack, P07) carries lists, text-keyed mappings, text, bytes, booleans, nothing, floats and whole numbers of at most 64 bits unchanged, nested up to its depth limit", "bytes.fromhex inverts bytes.hex", "induction over the nesting of a value: calls on parts of the value are replaced by the claim itself"]
