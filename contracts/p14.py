"""P14: stream connections deliver exactly the frames that were sent."""
import asyncio
from contracts.net import *
from contracts.serve import VE
from pydv import interp as I

CON = "streamtasks.connection"
RSC, RC, RWS, RCL = (CON + ":" + n for n in ("RawStreamConnection", "RawConnection", "RawWebsocketConnection", "RawConnectionLink"))
B = z3.Function("stream", z3.IntSort(), z3.IntSort())                     # the byte at each position of the input
CHUNK = z3.Function("chunk", z3.IntSort(), z3.IntSort(), z3.SeqSort(z3.IntSort()))   # input[a:b]

def marker(itp): return itp.getattr(itp.cls_by_qual(RSC), "SYNC_WORD")
def number(bs): return bs[0] + 256 * bs[1] + 65536 * bs[2] + 16777216 * bs[3]

def packing(itp):
  """struct: standard sizes, no padding; a number that does not fit is refused"""
  def order(fmt):
    if fmt in ("<L", "<I"): return "little", False
    if fmt in (">L", ">I", "!L", "!I"): return "big", False
    if fmt in ("<l", "<i"): return "little", True
    raise Unsupported("struct format " + str(fmt))
  def pack(itp_, a, k):
    o, signed = order(a[0]); n = itp.to_term(a[1], INT)
    lo, hi = (-2**31, 2**31) if signed else (0, 2**32)
    if not itp.decide(z3.And(n >= lo, n < hi)): itp.raise_py(I.EXT_EXC["struct.error"], "out of range")
    bs = [itp.fresh_const("b", z3.IntSort()) for _ in range(4)]
    itp.assume(z3.And(*[z3.And(0 <= b, b < 256) for b in bs]))
    v = number(bs if o == "little" else bs[::-1])
    itp.assume(n == (z3.If(v >= 2**31, v - 2**32, v) if signed else v))
    return Sym(z3.Concat(*[z3.Unit(b) for b in bs]), BYTES)
  def unpack(itp_, a, k):
    o, signed = order(a[0])
    s = itp.to_term(a[1], BYTES)
    if not itp.decide(z3.Length(s) == 4): itp.raise_py(I.EXT_EXC["struct.error"], "wrong length")
    s = z3.simplify(s)
    bs = [x.arg(0) for x in s.children()] if z3.is_app_of(s, z3.Z3_OP_SEQ_CONCAT) and all(z3.is_app_of(x, z3.Z3_OP_SEQ_UNIT) for x in s.children()) else [s[i] for i in range(4)]
    v = number(bs if o == "little" else bs[::-1])
    return (Sym(z3.If(v >= 2**31, v - 2**32, v) if signed else v, INT),)
  itp.ext_models["struct.pack"], itp.ext_models["struct.unpack"] = pack, unpack

def stream(itp):
  """a stream connection at an arbitrary position of an arbitrary input"""
  g = itp.st.ghost
  s = type("S", (), {})()
  packing(itp)
  s.p0, s.end = itp.fresh_const("start", z3.IntSort()), itp.fresh_const("end", z3.IntSort())
  itp.assume(z3.And(0 <= s.p0, s.p0 <= s.end))
  i = z3.Int("i!by")
  itp.assume(M.mk_forall([i], z3.And(B(i) >= 0, B(i) < 256), [[B(i)]]))
  g["pos"] = s.p0
  g["written"] = ()
  g["events"] = ()
  def read(itp_, o, a, k):
    def th():
      n = itp.to_term(a[0], INT); p = itp.st.ghost["pos"]
      itp.yield_point("read")
      if itp.decide(n < 0): itp.raise_py(ValueError, "readexactly size can not be less than zero")
      if not itp.decide(p + n <= s.end): itp.raise_py(asyncio.IncompleteReadError, "end of input")
      itp.st.ghost["pos"] = z3.simplify(p + n)
      c = z3.simplify(n)
      if z3.is_int_value(c) and 0 < c.as_long() <= 16:
        us = [z3.Unit(B(z3.simplify(p + j))) for j in range(c.as_long())]
        return Sym(z3.Concat(*us) if len(us) > 1 else us[0], BYTES)
      t = CHUNK(p, z3.simplify(p + n))
      itp.assume(z3.Length(t) == n)
      return Sym(t, BYTES)
    return CoroV(th)
  itp.any_methods[("reader", "readexactly")] = read
  def write(itp_, o, a, k):
    itp.st.ghost["written"] = itp.st.ghost["written"] + (a[0],); itp.st.ghost["events"] = itp.st.ghost["events"] + ("write",)
  def drain(itp_, o, a, k):
    def th(): itp.st.ghost["events"] = itp.st.ghost["events"] + ("wait",); itp.yield_point("drain")
    return CoroV(th)
  itp.any_methods[("writer", "write")] = write
  itp.any_methods[("writer", "writelines")] = lambda itp_, o, a, k: [write(itp_, o, [x], {}) for x in itp.concrete_items(a[0])] and None
  itp.any_methods[("writer", "drain")] = drain
  itp.any_methods[("writer", "close")] = lambda itp_, o, a, k: None
  s.o = itp.new_obj(itp.cls_by_qual(RSC), {"_reader": itp.fresh("reader", ANY("reader")), "_writer": itp.fresh("writer", ANY("writer")), "_send_lock": itp.fresh("lock", ANY("lock")), "_recv_lock": itp.fresh("lock2", ANY("lock"))})
  return s

def s_send(itp):
  s = stream(itp)
  data = itp.fresh("data", BYTES)
  i = z3.Int("i!da")
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(s.o, "_send"), [data])))
  W, n = itp.st.ghost["written"], z3.Length(data.t)
  if st != "ok": itp.check("_send: only a message of 4 GB or more is refused", n >= 2**32); return
  cat = z3.Concat(*[itp.to_term(w, BYTES) for w in W]) if len(W) > 1 else itp.to_term(W[0], BYTES) if W else None
  itp.check("_send: something is written", cat is not None)
  if cat is None: return
  m = marker(itp); k = len(m)
  itp.check("_send: exactly marker, length and message are written", z3.And(z3.Length(cat) == k + 4 + n))
  itp.check("_send: the frame begins with the marker", z3.And(*[cat[j] == m[j] for j in range(k)]))
  itp.check("_send: the length of the message follows", number([cat[k + j] for j in range(4)]) == n)
  itp.check("_send: the message follows unchanged", z3.SubSeq(cat, k + 4, n) == data.t)
  ev = itp.st.ghost["events"]
  w = [x for x, e in enumerate(ev) if e == "write"]
  itp.check("_send: nothing can get in between the parts of a frame", "wait" not in ev[w[0]:w[-1]])

def at_marker(itp, j):
  m = marker(itp)
  return z3.And(*[B(j + x) == m[x] for x in range(len(m))])

def s_recv(itp):
  s = stream(itp)
  m = marker(itp); K = len(m)
  itp.st.ghost["p0"] = s.p0
  def hint(lc):
    out = []
    pos = lambda: itp.st.ghost["pos"]
    j = z3.Int("j!re")
    for key, ty in lc.local_keys(lambda t: t is INT):
      k = lambda key=key: lc.term(key)
      out.append((f"matched bytes {key}", lambda D, k=k: z3.And(k() >= 0, k() <= K, pos() >= s.p0 + k(), pos() <= s.end)))
      out.append((f"they are the marker's {key}", lambda D, k=k: z3.And(*[z3.Implies(k() == kk, z3.And(*[B(pos() - kk + x) == m[x] for x in range(kk)])) for kk in range(1, K + 1)])))
      out.append((f"no marker before them {key}", lambda D, k=k: M.mk_forall([j], z3.Implies(z3.And(j >= s.p0, j < pos() - k()), z3.Not(at_marker(itp, j))), [[B(j)]])))
    return out
  itp.loop_hints.append(hint)
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(s.o, "_recv"), [])))
  if st != "ok":
    itp.check("_recv: fails only at the end of the input", exc_is(itp, r, EOFError)); return
  pos = itp.st.ghost["pos"]
  # the frame that was read ends at pos; it began at some marker, the first one of the input
  f = itp.fresh_const("frame", z3.IntSort())
  n = number([B(f + K + x) for x in range(4)])
  j = itp.fresh_const("j", z3.IntSort())
  first = z3.And(f >= s.p0, f + K <= s.end, at_marker(itp, f))
  jj = z3.Int("j!fi")
  only = M.mk_forall([jj], z3.Implies(z3.And(jj >= s.p0, jj < f), z3.Not(at_marker(itp, jj))), [[B(jj)]])
  itp.assume(B(s.p0) == B(s.p0))
  itp.check("_recv: reads exactly the first frame of the input", z3.Implies(z3.And(first, only), pos == f + K + 4 + n))
  itp.check("_recv: returns exactly the bytes of that frame", z3.Implies(z3.And(first, only), itp.to_term(r, BYTES) == CHUNK(f + K + 4, f + K + 4 + n)))

def exc_any(itp, e): return e

def s_wrapped(op, cls):
  """send/recv: one at a time, unchanged, transport failures as a closed connection"""
  def s(itp):
    cl = itp.cls_by_qual(cls)
    itp.ext_models["asyncio.shield"] = lambda itp_, a, k: a[0]
    data = itp.fresh("data", BYTES)
    g = itp.st.ghost
    g["held"], g["moved"], g["failed"] = (), (), False
    for nm in ("send", "recv"):
      def enter(itp_, o, a, k, nm=nm): itp.check(f"{op}: takes the lock once", nm not in itp.st.ghost["held"]); itp.st.ghost["held"] = itp.st.ghost["held"] + (nm,)
      def leave(itp_, o, a, k, nm=nm): itp.st.ghost["held"] = tuple(x for x in itp.st.ghost["held"] if x != nm)
      itp.any_methods[(nm + "lock", "__aenter__")], itp.any_methods[(nm + "lock", "__aexit__")] = enter, leave
    errs = [EOFError, ConnectionError, BrokenPipeError, asyncio.IncompleteReadError, ConnectionResetError] if cls == RSC else [I.EXT_EXC["websockets.ConnectionClosed"]]
    def inner(itp_, a, k):
      itp.check(f"{op}: one at a time", op in itp.st.ghost["held"])
      if op == "send": itp.st.ghost["moved"] = itp.st.ghost["moved"] + (a[1],)
      c = itp.choose(len(errs) + 1)
      if c < len(errs) and not (errs[c] is asyncio.IncompleteReadError and op == "send"): itp.st.ghost["failed"] = True; itp.raise_py(errs[c], "broken")
      return data if op == "recv" else None
    itp.models[cls + "._" + op] = inner
    o = itp.new_obj(cl, {"_send_lock": itp.fresh("sl", ANY("sendlock")), "_recv_lock": itp.fresh("rl", ANY("recvlock")), "_reader": itp.fresh("reader", ANY("reader")), "_writer": itp.fresh("writer", ANY("writer")), "socket": itp.fresh("socket", ANY("socket"))})
    st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, op), [data] if op == "send" else [])))
    itp.check(f"{op}: the lock is released", itp.st.ghost["held"] == ())
    if itp.st.ghost["failed"]:
      itp.check(f"{op}: a failing transport counts as closed", st != "ok" and isinstance(itp.deref(r), ObjRef) and itp.class_of(r).name == "ConnectionClosedError"); return
    itp.check(f"{op}: works if the transport works", st == "ok")
    if op == "recv": itp.check("recv: returns what was read", itp.bz(itp.eq(r, data)))
    else: itp.check("send: sends exactly the given bytes", len(itp.st.ghost["moved"]) == 1 and itp.bz(itp.eq(itp.st.ghost["moved"][0], data)))
  return s

def s_ws_recv(itp):
  g = itp.st.ghost
  g["got"] = ()
  sock = itp.fresh("socket", ANY("socket"))
  text, data = itp.fresh("text", STR), itp.fresh("data", BYTES)
  def recv(itp_, o, a, k):
    def th():
      b = itp.choose(2)
      itp.st.ghost["got"] = itp.st.ghost["got"] + (b,)
      return data if b else text
    return CoroV(th)
  itp.any_methods[("socket", "recv")] = recv
  o = itp.new_obj(itp.cls_by_qual(RWS), {"socket": sock})
  class Rule:
    @staticmethod
    def locals(itp, d): return {n: [None, text, data][itp.choose(3) if itp.st.ghost["got"] == () else 0] for n in d}
    @staticmethod
    def after(itp): itp.check("websocket: only text is skipped", itp.st.ghost["got"] in ((), (0,), (1,)))
  # the loop ends with the first bytes message: unrolled up to its first message, then by the rule
  itp.event_rule = Rule
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "_recv"), [])))
  itp.check("websocket: returns a received bytes message", st == "ok" and itp.bz(itp.eq(r, data)))

def s_ws_send(itp):
  itp.st.ghost["sent"] = ()
  def send(itp_, o, a, k):
    def th(): itp.st.ghost["sent"] = itp.st.ghost["sent"] + (a[0],)
    return CoroV(th)
  itp.any_methods[("socket", "send")] = send
  o = itp.new_obj(itp.cls_by_qual(RWS), {"socket": itp.fresh("socket", ANY("socket"))})
  data = itp.fresh("data", BYTES)
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "_send"), [data])))
  S = itp.st.ghost["sent"]
  itp.check("websocket: sends the bytes as one message", st == "ok" and len(S) == 1 and itp.bz(itp.eq(S[0], data)))

def s_link(op):
  """a link over a connection sends and receives encoded messages; every failure counts as closed"""
  def s(itp):
    msg, data = itp.fresh("message", ANY("msg")), itp.fresh("data", BYTES)
    SER, DES = z3.Function("ser", sort(ANY("msg")), sort(BYTES)), z3.Function("des", sort(BYTES), sort(ANY("msg")))
    g = itp.st.ghost
    g["failed"], g["sent"] = None, ()
    def fail(*ex):
      c = itp.choose(len(ex) + 1)
      if c < len(ex): itp.st.ghost["failed"] = ex[c]; itp.raise_py(ex[c], "broken")
    def ser(itp_, a, k): fail(ValueError, KeyError); return Sym(SER(itp.to_term(a[0], ANY("msg"))), BYTES)
    def des(itp_, a, k): fail(ValueError, KeyError, TypeError); return Sym(DES(itp.to_term(a[0], BYTES)), ANY("msg"))
    for mod in ("streamtasks.net.serialization",): itp.models[mod + ":serialize_message"], itp.models[mod + ":deserialize_message"] = ser, des
    def send(itp_, o, a, k):
      def th(): fail(asyncio.CancelledError, ValueError, OSError); itp.st.ghost["sent"] = itp.st.ghost["sent"] + (a[0],)
      return CoroV(th)
    def recv(itp_, o, a, k):
      def th(): fail(asyncio.CancelledError, ValueError, OSError); return data
      return CoroV(th)
    itp.any_methods[("conn", "send")], itp.any_methods[("conn", "recv")] = send, recv
    o = itp.new_obj(itp.cls_by_qual(RCL), {"_connection": itp.fresh("connection", ANY("conn"))})
    st, r = attempt(itp, lambda: itp.await_(itp.call(itp.getattr(o, "_" + op), [msg] if op == "send" else [])))
    f = itp.st.ghost["failed"]
    if f is not None:
      itp.check(f"link {op}: never succeeds when something failed", st != "ok")
      if st == "ok": return
      if f is asyncio.CancelledError: itp.check(f"link {op}: a cancellation stays one", exc_is(itp, r, f))
      else: itp.check(f"link {op}: a failure counts as closed", isinstance(itp.deref(r), ObjRef) and itp.class_of(r).name == "ConnectionClosedError")
      return
    itp.check(f"link {op}: works if nothing failed", st == "ok")
    S = itp.st.ghost["sent"]
    if op == "send": itp.check("link send: sends the encoded message once", len(S) == 1 and itp.bz(itp.eq(S[0], Sym(SER(msg.t), BYTES))))
    else: itp.check("link recv: returns the decoded message", itp.bz(itp.eq(r, Sym(DES(data.t), ANY("msg")))))
  return s

SCENARIOS = [Scn("RawStreamConnection._send", s_send, [RSC + "._send"]), Scn("RawStreamConnection._recv", s_recv, [RSC + "._recv"])] + \
  [Scn(f"{c.split(':')[1]}.{op}", s_wrapped(op, c), [c + "." + op, RC + "." + op]) for c in (RSC, RWS) for op in ("send", "recv")] + \
  [Scn("RawWebsocketConnection._recv", s_ws_recv, [RWS + "._recv"]), Scn("RawWebsocketConnection._send", s_ws_send, [RWS + "._send"]), Scn("RawConnectionLink._send", s_link("send"), [RCL + "._send"]), Scn("RawConnectionLink._recv", s_link("recv"), [RCL + "._recv"])]
ASSUMPTIONS = ["asyncio streams and websockets deliver the written bytes/messages unchanged and in order; readexactly(n) returns exactly the next n bytes or raises at the end of the input", "struct packs standard sizes without padding",
  "a pending recv is not cancelled and then repeated", "a message of 4 GB or more is refused by _send (struct) and counts as not sent"]
