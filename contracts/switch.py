"""shared helpers: a switch with arbitrarily many links in arbitrary state"""
from contracts.net import *

SW = NET + ":Switch"
LM = NET + ":LinkManager"
L = REF(LINK)
TASK = ANY("task")
LINKS = MAP(L, TASK)
CTL = REC(MSG + ":TopicControlData", paused=BOOL)
CTLS = MAP(INT, CTL)
COUNTS = MAP(INT, INT)
INNER, OUTER = MAP(INT, INT), MAP(INT, MAP(INT, INT))

def sw_setup(itp):
  setup(itp)
  for f in ("in_topics", "recv_topics"): itp.ref_fields[(LINK, f)] = IDS
  for f in ("out_topics", "addresses"): itp.ref_fields[(LINK, f)] = PRICES
  itp.ref_fields[(LINK, "_closed")] = BOOL
  itp.ref_fields[(LINK, "nsent")] = INT
  itp.rec_types[MSG + ":TopicControlData"] = CTL

class Sw: pass
def new_switch(itp, trackers=True):
  s = Sw()
  s.links = itp.fresh_const("links", sort(LINKS))
  s.lm = itp.new_obj(itp.cls_by_qual(LM), {"_link_recv_tasks": itp.new_cont("map", LINKS, s.links)})
  s.ctl = itp.fresh_const("controls", sort(CTLS))
  s.it = itp.fresh_const("wanted", sort(COUNTS))
  f = {"link_manager": s.lm, "stream_controls": itp.new_cont("map", CTLS, s.ctl),
    "in_topics": itp.new_obj(itp.cls_by_qual("streamtasks.utils:IdTracker"), {"_map": itp.new_cont("map", COUNTS, s.it)})}
  for n in ("out_topics", "addresses"):
    o = itp.fresh_const(n + "_map", sort(OUTER)); b = itp.fresh_const(n + "_best", sort(COUNTS))
    f[n] = itp.new_obj(itp.cls_by_qual("streamtasks.net.helpers:PricedIdTracker"), {"_map": itp.new_cont("map", OUTER, o), "_computed_map": itp.new_cont("map", COUNTS, b)})
  s.o = itp.new_obj(itp.cls_by_qual(SW), f)
  return s
def links_now(itp, s): return itp.to_term(itp.getattr(s.lm, "_link_recv_tasks"), LINKS)
def is_link(s, l, t=None): return sel(m_dom(LINKS, s.links if t is None else t), l)
def lf(itp, field, l): return itp.fld_get(LINK, field, l)
def fresh_link(itp, name="l"): return itp.fresh_const(name, sort(L))
def havoc_links(itp, s, fields=("in_topics", "recv_topics", "out_topics", "addresses", "_closed")):
  """other tasks ran: links may have joined or left, and their state may have changed"""
  itp.setattr(s.lm, "_link_recv_tasks", itp.new_cont("map", LINKS, itp.fresh_const("links", sort(LINKS))))
  for f in fields: itp.st.farr[(LINK, f)] = itp.fresh_const(f, itp.fld_arr(LINK, f).sort())
def run(itp, o, m, args): return itp.await_(itp.call(itp.getattr(o, m), args))
def cce(itp): return itp.call(ext_cls(itp, "ConnectionClosedError"), [])
