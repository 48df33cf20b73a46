"""P12: every request is answered once, to its requester, by the right handler."""
import asyncio
from contracts.net import *
from contracts.serve import *
from contracts.p02 import any_message

FETCH, SIG, CL, RECV = "streamtasks.client.fetch", "streamtasks.client.signal", "streamtasks.client:Client", "streamtasks.client.receiver:Receiver"
RAW = "streamtasks.net.serialization:RawData"
HM = MAP(STR, ANY("handler"))

def base(itp):
  setup(itp)
  itp.ext_models["logging.debug"] = lambda *a: None
  itp.ext_models["asyncio.Queue"] = lambda itp_, a, k: itp.fresh("queue", ANY("queue"))
  itp.ext_models["asyncio.sleep"] = lambda itp_, a, k: CoroV(lambda: None)
  itp.st.ghost["queued"] = ()
  def put(itp_, s, a, k): itp.st.ghost["queued"] = itp.st.ghost["queued"] + (a[0],)
  itp.any_methods[("queue", "put_nowait")] = put
  itp.attr_models[(RAW, "data")] = lambda itp_, s: itp.fresh("payload", ANY("body"))
  memo = []
  decoding(itp, memo=memo)
  return memo
def server(itp, cls, extra=None):
  hm = itp.fresh_const("handlers", sort(HM))
  port = itp.fresh("port", INT)
  o = itp.new_obj(itp.cls_by_qual(cls), {"_client": itp.fresh("client", ANY("client")), "_recv_queue": itp.fresh("queue", ANY("queue")), "_receiving_count": 0, "_descriptor_mapping": itp.new_cont("map", HM, hm), "_port": port})
  return o, hm, port
def queued(itp): return itp.st.ghost["queued"]
KINDS = ["TopicDataMessage", "TopicControlMessage", "AddressedMessage", "InTopicsChangedMessage", "OutTopicsChangedMessage", "AddressesChangedMessage"]

def s_arrive(cls, kind):
  nm = cls.split(":")[1]
  def s(itp):
    memo = base(itp)
    o, hm, port = server(itp, cls)
    msg = any_message(itp, kind)
    st, r = attempt(itp, lambda: itp.call(itp.getattr(o, "on_message"), [msg]))
    q = queued(itp)
    itp.check(f"{nm} {kind}: arrival never fails", st == "ok")
    itp.check(f"{nm} {kind}: taken at most once", len(q) <= 1)
    if kind != "AddressedMessage": itp.check(f"{nm} {kind}: not a request", len(q) == 0); return
    mine = itp.bz(itp.eq(itp.getattr(msg, "port"), port))
    if not memo: itp.check(f"{nm}: what is no request for this port is ignored", z3.Or(z3.Not(mine), itp.st.ghost.get("decodes", 0) > 0) if not q else False); return
    d = itp.to_term(itp.getattr(memo[0], "descriptor"), STR)
    known = sel(m_dom(HM, hm), d)
    itp.check(f"{nm}: taken exactly if it is for this port and has a handler", z3.And(mine, known) if q else z3.Not(z3.And(mine, known)))
    if not q: return
    v = itp.deref(q[0])
    itp.check(f"{nm}: taken with its descriptor", isinstance(v, tuple) and len(v) == 2 and itp.bz(itp.eq(v[0], Sym(d, STR))))
    if not (isinstance(v, tuple) and len(v) == 2): return
    if cls == SS: itp.check(f"{nm}: taken with its content", itp.bz(itp.eq(v[1], itp.getattr(memo[0], "body")))); return
    fr = v[1]
    ep = itp.deref(itp.getattr(fr, "_return_endpoint"))
    itp.check(f"{nm}: taken with its return endpoint", itp.bz(itp.conj([itp.eq(ep[0], itp.getattr(memo[0], "return_address")), itp.eq(ep[1], itp.getattr(memo[0], "return_port"))])))
    itp.check(f"{nm}: taken with its content", itp.bz(itp.eq(itp.getattr(fr, "body"), itp.getattr(memo[0], "body"))))
    itp.check(f"{nm}: taken as unanswered", itp.getattr(fr, "response_sent") is False)
  return s

def client_sends(itp):
  itp.st.ghost["sent"] = ()
  itp.models[RAW] = lambda itp_, a, k: a[0]
  def send_to(itp_, s, a, k):
    def th():
      itp.st.ghost["sent"] = itp.st.ghost["sent"] + ((a[0], a[1]),)
    return CoroV(th)
  itp.any_methods[("client", "send_to")] = send_to
def same_ep(itp, a, b):
  a, b = itp.deref(a), itp.deref(b)
  return itp.bz(itp.conj([itp.eq(a[0], b[0]), itp.eq(a[1], b[1])]))

def s_run(cls):
  nm = cls.split(":")[1]
  def s(itp):
    base(itp); client_sends(itp)
    o, hm, port = server(itp, cls)
    itp.models[RECV + ".start_recv"] = lambda *a: None
    itp.models[RECV + ".stop_recv"] = lambda *a: None
    g = itp.st.ghost
    g["called"], g["got"], g["how"] = (), None, ""
    body = itp.fresh("request_body", ANY("payload"))
    ep = (itp.fresh("ra", INT), itp.fresh("rp", INT))
    d = itp.fresh("descriptor", STR)
    def get(itp_, s_, a, k):
      def th():
        itp.check(f"{nm}: takes one request at a time", itp.st.ghost["got"] is None)
        # other tasks change the routes while it waits
        m = itp.fresh_const("handlers", sort(HM)); itp.setattr(o, "_descriptor_mapping", itp.new_cont("map", HM, m)); itp.st.ghost["map"] = m
        x = body if cls == SS else itp.new_obj(itp.cls_by_qual(FR), {"_client": itp.getattr(o, "_client"), "_return_endpoint": ep, "body": body, "response_sent": False})
        itp.st.ghost["got"] = x
        return (d, x)
      return CoroV(th)
    itp.any_methods[("queue", "get")] = get
    def handler(itp_, h, a, k):
      def th():
        itp.st.ghost["called"] = itp.st.ghost["called"] + ((h, a[0]),)
        how = itp.choose(3) if cls == FS else 2
        if how < 2: itp.await_(itp.call(itp.getattr(a[0], ["respond", "respond_error"][how]), [itp.fresh("answer", ANY("payload"))]))
        itp.st.ghost["responded"] = len(itp.st.ghost["sent"])
        itp.st.ghost["first"] = itp.st.ghost["sent"]
        itp.st.ghost["how"] = ""
        e = itp.choose(4)
        if e == 1: itp.st.ghost["how"] = "invalid"; itp.raise_py(VE, "invalid")
        if e == 2: itp.st.ghost["how"] = "failed"; itp.raise_py(RuntimeError, "handler failed")
        if e == 3: itp.st.ghost["how"] = "failed"; raise PyRaise(itp.call(itp.cls_by_qual(FETCH + ":FetchError"), ["nested"]))
      return CoroV(th)
    itp.any_methods[("handler", "__call__")] = handler
    class Rule:
      @staticmethod
      def after(itp):
        g = itp.st.ghost
        sent, called = g["sent"], g["called"]
        if g["got"] is None: itp.check(f"{nm}: nothing happens without a request", not sent and not called); return
        known = sel(m_dom(HM, g["map"]), d.t)
        if not called: itp.check(f"{nm}: only requests without a handler are passed over", z3.And(z3.Not(known), len(sent) == 0)); return
        itp.check(f"{nm}: handled once", len(called) == 1)
        h, x = called[0]
        itp.check(f"{nm}: by the handler of its descriptor", z3.And(known, h.t == sel(m_val(HM, g["map"]), d.t)))
        itp.check(f"{nm}: the handler gets the request", (x.t.eq(body.t) if cls == SS else itp.deref(x) == itp.deref(g["got"])))
        if cls == SS: itp.check(f"{nm}: signals are not answered", not sent); return
        itp.check(f"{nm}: exactly one answer", len(sent) == 1)
        if len(sent) != 1: return
        itp.check(f"{nm}: to the requester", same_ep(itp, sent[0][0], ep))
        itp.check(f"{nm}: counted as answered", itp.truth(itp.getattr(g["got"], "response_sent")))
        if g["responded"] == 1: itp.check(f"{nm}: the handler's answer", sent[0] is g["first"][0]); return
        err, b = body_get(itp, sent[0][1], "error"), body_get(itp, sent[0][1], "body")
        if g["how"]: itp.check(f"{nm}: a failed request is answered with an error", itp.bz(itp.eq(err, True)))
        else: itp.check(f"{nm}: a handler without answer gives an empty one", itp.bz(itp.conj([itp.eq(err, False), itp.eq(b, None)])))
    itp.event_rule = Rule
    st, v = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "run"), [])))
    itp.check(f"{nm}: a failing handler never stops the server", False)
  return s

def s_respond(err):
  n = "respond_error" if err else "respond"
  def s(itp):
    base(itp); client_sends(itp)
    ep = (itp.fresh("ra", INT), itp.fresh("rp", INT))
    fr = itp.call(itp.cls_by_qual(FR), [itp.fresh("client", ANY("client")), ep, itp.fresh("body", ANY("payload"))])
    itp.check("a new request is unanswered", itp.getattr(fr, "response_sent") is False)
    b = itp.fresh("answer", ANY("payload"))
    st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(fr, n), [b])))
    sent = itp.st.ghost["sent"]
    itp.check(f"{n}: one answer", st == "ok" and len(sent) == 1)
    if len(sent) != 1: return
    itp.check(f"{n}: to the requester", same_ep(itp, sent[0][0], ep))
    itp.check(f"{n}: with the given content", itp.bz(itp.eq(body_get(itp, sent[0][1], "body"), b)))
    itp.check(f"{n}: as {'an error' if err else 'no error'}", itp.bz(itp.eq(body_get(itp, sent[0][1], "error"), err)))
    itp.check(f"{n}: counted as answered", itp.truth(itp.getattr(fr, "response_sent")))
  return s

def s_response(kind):
  def s(itp):
    memo = base(itp)
    port = itp.fresh("port", INT)
    o = itp.new_obj(itp.cls_by_qual(FETCH + ":FetchReponseReceiver"), {"_client": itp.fresh("client", ANY("client")), "_recv_queue": itp.fresh("queue", ANY("queue")), "_receiving_count": 0, "_return_port": port})
    msg = any_message(itp, kind)
    st, r = attempt(itp, lambda: itp.call(itp.getattr(o, "on_message"), [msg]))
    q = queued(itp)
    itp.check(f"response {kind}: arrival never fails", st == "ok")
    if kind != "AddressedMessage": itp.check(f"response {kind}: not an answer", len(q) == 0); return
    mine = itp.bz(itp.eq(itp.getattr(msg, "port"), port))
    if not memo: itp.check("response: what is no answer is ignored", z3.Or(z3.Not(mine), itp.st.ghost.get("decodes", 0) > 0) if not q else False); return
    itp.check("response: taken exactly if sent to the return port", z3.And(mine, len(q) == 1) if q else z3.Not(mine))
    if q: itp.check("response: taken as sent", itp.deref(q[0]) == memo[0])
  return s

def s_fetch(itp):
  base(itp)
  itp.models[RAW] = lambda itp_, a, k: a[0]
  g = itp.st.ghost
  g["log"] = ()
  def log(*x): itp.st.ghost["log"] = itp.st.ghost["log"] + (x,)
  o = itp.new_obj(itp.cls_by_qual(CL), {"_address": itp.fresh("own", OPT(INT))})
  port = itp.fresh("free_port", INT)
  itp.models[CL + ".get_free_port"] = lambda itp_, a, k: port
  def send_to(itp_, a, k): log("send", a[1], a[2])
  itp.models[CL + ".send_to"] = send_to
  RR = FETCH + ":FetchReponseReceiver"
  itp.models[RECV + ".start_recv"] = lambda itp_, a, k: log("start", itp.getattr(a[0], "_return_port"))
  itp.models[RECV + ".stop_recv"] = lambda itp_, a, k: log("stop", itp.getattr(a[0], "_return_port"))
  ans = arbitrary(itp, itp.cls_by_qual(FETCH + ":FetchResponseMessage"), "answer.")
  err = itp.getattr(ans, "error"); body = itp.getattr(ans, "body")
  def get(itp_, a, k): log("get"); return ans
  itp.models[RECV + ".get"] = get
  by_name = itp.choose(2)
  ep = itp.fresh("address", STR) if by_name else itp.fresh("address", INT)
  if itp.choose(2): full = (ep, itp.fresh("p", INT)); arg = full
  else: full = (ep, itp.getattr(itp.cls_by_qual("streamtasks.services.constants:NetworkPorts"), "FETCH")); arg = ep
  d, b = itp.fresh("descriptor", STR), itp.fresh("content", ANY("payload"))
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "fetch"), [arg, d, b])))
  L = itp.st.ghost["log"]
  kinds = [x[0] for x in L]
  own = itp.resolve(itp.getattr(o, "_address"))
  if own is None: itp.check("fetch: refused without an own address", st != "ok" and not L); return
  itp.check("fetch: listens before it asks, and until it is answered", kinds == ["start", "send", "get", "stop"])
  if kinds != ["start", "send", "get", "stop"]: return
  itp.check("fetch: listens on its own return port", itp.bz(itp.eq(L[0][1], port)))
  to = itp.deref(L[1][1])
  itp.check("fetch: asks the given server", isinstance(to, tuple) and itp.bz(itp.conj([itp.eq(to[0], full[0]), itp.eq(to[1], full[1])])))
  f = {k: body_get(itp, L[1][2], k) for k in ("return_address", "return_port", "descriptor", "body")}
  itp.check("fetch: asks for the answer to its return port", itp.bz(itp.conj([itp.eq(f["return_address"], own), itp.eq(f["return_port"], port)])))
  itp.check("fetch: asks what was given", itp.bz(itp.conj([itp.eq(f["descriptor"], d), itp.eq(f["body"], b)])))
  if st == "ok":
    itp.check("fetch: returns the content of an answer that is no error", z3.And(z3.Not(itp.to_term(err, BOOL)), itp.bz(itp.eq(r, body))))
  else:
    itp.check("fetch: raises exactly for an error answer", itp.to_term(err, BOOL))
    itp.check("fetch: raises a FetchError with its content", isinstance(itp.deref(r), ObjRef) and itp.class_of(r).name == "FetchError" and itp.bz(itp.eq(itp.getattr(r, "body"), body)))

def s_signal(itp):
  base(itp); client_sends(itp)
  c = itp.fresh("client", ANY("client"))
  ep = itp.fresh("address", INT)
  if itp.choose(2): full = (ep, itp.fresh("p", INT)); arg = full
  else: full = (ep, itp.getattr(itp.cls_by_qual("streamtasks.services.constants:NetworkPorts"), "SIGNAL")); arg = ep
  d, b = itp.fresh("descriptor", STR), itp.fresh("content", ANY("payload"))
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.module_attr(itp.loader.module(SIG), "send_signal"), [c, arg, d, b])))
  sent = itp.st.ghost["sent"]
  itp.check("send_signal: one message", st == "ok" and len(sent) == 1)
  if len(sent) != 1: return
  itp.check("send_signal: to the given server", same_ep(itp, sent[0][0], full))
  itp.check("send_signal: as given", itp.bz(itp.conj([itp.eq(body_get(itp, sent[0][1], "descriptor"), d), itp.eq(body_get(itp, sent[0][1], "body"), b)])))

def s_routes(cls):
  nm = cls.split(":")[1]
  def s(itp):
    base(itp)
    o, hm, port = server(itp, cls)
    d, h = itp.fresh("descriptor", STR), itp.fresh("handler", ANY("handler"))
    k = itp.choose(3)
    if k == 0: itp.call(itp.getattr(o, "add_route"), [d, h])
    elif k == 1:
      r = itp.call(itp.call(itp.getattr(o, "route"), [d]), [h])
      itp.check(f"{nm}: the decorated handler is unchanged", itp.bz(itp.eq(r, h)))
    else: itp.call(itp.getattr(o, "remove_route"), [d])
    m = itp.to_term(itp.getattr(o, "_descriptor_mapping"), HM)
    x = itp.fresh_const("x", z3.StringSort())
    itp.check(f"{nm}: exactly this descriptor's handler changes", sel(m_dom(HM, m), x) == z3.If(x == d.t, z3.BoolVal(k < 2), sel(m_dom(HM, hm), x)))
    itp.check(f"{nm}: the handler is the given one", z3.Implies(sel(m_dom(HM, m), x), sel(m_val(HM, m), x) == z3.If(x == d.t, h.t, sel(m_val(HM, hm), x))))
  return s

SCENARIOS = [Scn(f"{c.split(':')[1]}.on_message {k}", s_arrive(c, k), [c + ".on_message"]) for c in (FS, SS) for k in KINDS] + \
  [Scn("FetchServer.run", s_run(FS), [FS + ".run"]), Scn("SignalServer.run", s_run(SS), [SS + ".run"]), Scn("FetchRequest.respond", s_respond(False), [FR + ".respond"]), Scn("FetchRequest.respond_error", s_respond(True), [FR + ".respond_error"])] + \
  [Scn(f"FetchReponseReceiver.on_message {k}", s_response(k), [FETCH + ":FetchReponseReceiver.on_message"]) for k in KINDS] + \
  [Scn("Client.fetch", s_fetch, [CL + ".fetch"]), Scn("send_signal", s_signal, [SIG + ":send_signal"]), Scn("FetchServer routes", s_routes(FS), [FS + ".route", FS + ".add_route", FS + ".remove_route"]), Scn("SignalServer routes", s_routes(SS), [SS + ".route", SS + ".add_route", SS + ".remove_route"])]
ASSUMPTIONS = ["a handler answers at most once itself, and raises asyncio.CancelledError only when the server is cancelled", "payloads can be decoded by msgpack", "the link to the requester stays open while it is answered", "asyncio.Queue delivers what was put, in order"]
