"""shared helpers for the contracts of streamtasks/net"""
import z3
from pydv.verify import *
from pydv.types import *
from pydv.core import *
from pydv import models as M

NET = "streamtasks.net"
MSG = "streamtasks.net.messages"
LINK = NET + ":Link"
PID = REC(MSG + ":PricedId", id=INT, cost=INT)
IDS, PIDS, PRICES = SET(INT), SET(PID), MAP(INT, INT)
PAY = REF("streamtasks.net.serialization:RawData")

def p(i, c): return mk(PID, i, c)
def pid(x): return r_get(PID, "id", x)
def pcost(x): return r_get(PID, "cost", x)
def dom(t, i): return sel(m_dom(PRICES, t), i)
def val(t, i): return sel(m_val(PRICES, t), i)

def setup(itp):
  itp.rec_types[MSG + ":PricedId"] = PID
  itp.models[NET + ":_transform_message"] = lambda itp_, a, k: a[0]
  itp.assumptions.add("_transform_message (DEBUG_SER round trip) is the identity up to equality (P07)")

def mcls(itp, name): return itp.cls_by_qual(MSG + ":" + name)
def ext_cls(itp, name): return itp.cls_by_qual(NET + ":" + name)
def term_set(itp, v, el):
  ty, t = M.as_set(itp, v, el)
  return t if t is not None else empty_set(el)
def field_set(itp, o, f, el): return term_set(itp, itp.getattr(o, f), el)
def new_set(itp, name, el):
  t = itp.fresh_const(name, sort(SET(el)))
  return t, itp.new_cont("set", SET(el), t)
def is_msg(itp, v, name):
  return isinstance(v, ObjRef) and itp.st.cells[v.addr].cls is mcls(itp, name)
def functional(itp, A):
  """every id is named at most once"""
  i, c, d = z3.Int("i!fu"), z3.Int("c!fu"), z3.Int("d!fu")
  return M.mk_forall([i, c, d], z3.Implies(z3.And(sel(A, p(i, c)), sel(A, p(i, d))), c == d), [[sel(A, p(i, c)), sel(A, p(i, d))]])

def new_link(itp, cls=LINK, cost=None, closed=None):
  """a link object with arbitrary state"""
  t = {}
  f = {}
  for n in ("in_topics", "recv_topics"): t[n], f[n] = new_set(itp, n, INT)
  for n in ("out_topics", "addresses"):
    t[n] = itp.fresh_const(n, sort(PRICES)); f[n] = itp.new_cont("map", PRICES, t[n])
  t["closed"] = itp.fresh_const("closed", z3.BoolSort()) if closed is None else z3.BoolVal(closed)
  t["cost"] = itp.fresh_const("cost", z3.IntSort())
  itp.assume(t["cost"] != 0)
  HT = LIST(ANY("handler"))
  t["handlers"] = itp.fresh_const("handlers", sort(HT))
  itp.assume(l_len(HT, t["handlers"]) >= 0)
  f.update(_closed=Sym(t["closed"], BOOL) if closed is None else closed, _receiver=None, _cost=Sym(t["cost"], INT), on_closed=itp.new_cont("list", HT, t["handlers"]))
  return itp.new_obj(itp.cls_by_qual(cls), f), t

def link_now(itp, o):
  return {"in_topics": field_set(itp, o, "in_topics", INT), "recv_topics": field_set(itp, o, "recv_topics", INT),
    "out_topics": itp.to_term(itp.getattr(o, "out_topics"), PRICES), "addresses": itp.to_term(itp.getattr(o, "addresses"), PRICES)}
def same_map(a, b, i): return z3.And(dom(a, i) == dom(b, i), z3.Implies(dom(a, i), val(a, i) == val(b, i)))
