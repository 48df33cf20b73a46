"""Switch tables against the tables of its links: an announcement, a new link, a lost link change the tracker by exactly
what they change in that link's recorded routes (for every id and price), before anything else can run."""
from contracts.switch import *
from contracts import p01 as T

PT = "streamtasks.net.helpers:PricedIdTracker"
KINDS = {"addresses": ("AddressesChangedMessage", "AddressesChangedRecvMessage", "on_addresses_changed"), "out_topics": ("OutTopicsChangedMessage", "OutTopicsChangedRecvMessage", "on_out_topics_changed")}
one = lambda b: z3.If(b, 1, 0)

def contract_change(itp, after):
  """P01's contract of change_many"""
  def model(itp_, args, kw):
    o = args[0]
    v0 = T.view(itp, o)
    itp.check("call of change_many: the invariant holds before", v0.inv())
    A, R = T.as_set(itp, args[1], PID), T.as_set(itp, args[2], PID)
    T.fresh_tracker(itp, o)
    v1 = T.view(itp, o)
    i, c = z3.Int("i!ch"), z3.Int("c!ch")
    UPD, REM = itp.fresh_const("changed", sort(SET(PID))), itp.fresh_const("gone", sort(SET(INT)))
    itp.assume(v1.inv())
    itp.assume(M.mk_forall([i, c], v1.cnt(i, c) == v0.cnt(i, c) - one(z3.And(sel(R, p(i, c)), v0.cnt(i, c) > 0)) + one(sel(A, p(i, c))), [[sel(m_dom(INNER, v1.inner(i)), c)]]))
    itp.assume(M.mk_forall([i, c], z3.Implies(sel(UPD, p(i, c)), z3.And(v1.known(i), v1.best(i) == c)), [[sel(UPD, p(i, c))]]))
    itp.assume(M.mk_forall([i], z3.Implies(z3.And(v1.known(i), z3.Or(z3.Not(v0.known(i)), v0.best(i) != v1.best(i))), sel(UPD, p(i, v1.best(i)))), [[v1.known(i)], [v1.best(i)]]))
    itp.assume(M.mk_forall([i], z3.Implies(z3.And(v0.known(i), z3.Not(v1.known(i))), sel(REM, i)), [[v1.known(i)], [v0.known(i)]]))
    itp.assume(M.mk_forall([i], z3.Implies(z3.And(sel(REM, i), v1.known(i)), sel(UPD, p(i, v1.best(i)))), [[sel(REM, i)]]))
    after("change", o, v0, v1, UPD, REM)
    return (itp.new_cont("set", SET(PID), UPD), itp.new_cont("set", SET(INT), REM))
  return model
def contract_add(itp, after):
  def model(itp_, args, kw):
    o = args[0]
    v0 = T.view(itp, o)
    r = T.contract_add(itp, o)(itp_, args, kw)
    after("add", o, v0, T.view(itp, o), term_set(itp, r, PID), None)
    return r
  return model
def contract_remove(itp, after):
  def model(itp_, args, kw):
    o = args[0]
    v0 = T.view(itp, o)
    r = T.contract_remove(itp, o)(itp_, args, kw)
    after("remove", o, v0, T.view(itp, o), term_set(itp, r[1], PID), term_set(itp, r[0], INT))
    return r
  return model

def offers(t, i, c): return z3.And(dom(t, i), val(t, i) == c)

def track(itp, w, delta, on_report=None):
  """delta(table): (old routes, new routes) of the one link that changes, as predicates of (id, price)"""
  done = itp.st.ghost["done"] = ()
  def after(kind, o, v0, v1, UPD, REM):
    for n in ("addresses", "out_topics"):
      if o.addr == itp.getattr(w.o, n).addr:
        old, new = delta(n)
        i, c = itp.fresh_const("i", z3.IntSort()), itp.fresh_const("c", z3.IntSort())
        itp.check(f"{n}: the switch's routes change by exactly what the link's routes change", v1.cnt(i, c) - v0.cnt(i, c) == one(new(i, c)) - one(old(i, c)))
        itp.check(f"{n}: counted once", n not in itp.st.ghost["done"])
        itp.st.ghost["done"] = itp.st.ghost["done"] + (n,)
        if on_report: on_report(n, v0, v1, UPD, REM)
        return
    raise Unsupported("an unknown tracker")
  itp.models[PT + ".change_many"] = contract_change(itp, after)
  itp.models[PT + ".add_many"] = contract_add(itp, after)
  itp.models[PT + ".remove_many"] = contract_remove(itp, after)

def known_offers(itp, w, l, table, t=None):
  """part of the invariant: what a connected link offers is counted"""
  v = T.view(itp, itp.getattr(w.o, table))
  i = z3.Int("i!ko")
  t = lf(itp, table, l).t if t is None else t
  itp.assume(v.inv())
  itp.assume(M.mk_forall([i], z3.Implies(dom(t, i), v.cnt(i, val(t, i)) >= 1), [[dom(t, i)]]))

def s_announce(table, report=False):
  kind, recv, handler = KINDS[table]
  def s(itp):
    sw_setup(itp)
    w = new_switch(itp)
    l = fresh_link(itp, "origin")
    itp.assume(is_link(w, l))
    t0 = itp.fld_get(LINK, table, l)
    known_offers(itp, w, l, table, t0)
    t1 = itp.fresh_const("now", sort(PRICES))
    A, a = new_set(itp, "add", PID); R, r = new_set(itp, "remove", PID)
    i, c = z3.Int("i!an"), z3.Int("c!an")
    # contract of Link._process_recv_message (P02): the message handed on turns the old record into the new one
    itp.assume(M.mk_forall([i, c], z3.Implies(sel(R, p(i, c)), offers(t0, i, c)), [[sel(R, p(i, c))]]))
    itp.assume(M.mk_forall([i, c], z3.Implies(sel(A, p(i, c)), offers(t1, i, c)), [[sel(A, p(i, c))]]))
    itp.assume(M.mk_forall([i, c], one(sel(A, p(i, c))) - one(sel(R, p(i, c))) == one(offers(t1, i, c)) - one(offers(t0, i, c)), [[sel(A, p(i, c))], [sel(R, p(i, c))]]))
    itp.fld_set(LINK, table, l, t1)
    other = "out_topics" if table == "addresses" else "addresses"
    rep = {}
    def on_report(n, v0, v1, UPD, REM): itp.st.ghost["rep"] = (UPD, REM)
    itp.st.ghost["rep"] = None
    track(itp, w, lambda n: (lambda i, c: offers(t0, i, c), lambda i, c: offers(t1, i, c)) if n == table else (lambda i, c: z3.BoolVal(False), lambda i, c: z3.BoolVal(False)), on_report)
    links0 = w.links
    n0 = itp.fld_arr(LINK, "nsent")
    def send(itp_, args, kw):
      itp.check(f"{table}: recorded before anything is sent", table in itp.st.ghost["done"])
      tl = itp.to_term(args[0], L)
      itp.fld_set(LINK, "nsent", tl, itp.fld_get(LINK, "nsent", tl) + 1)
      m = itp.deref(args[1])
      if isinstance(m, ObjRef) and itp.st.cells[m.addr].cls is mcls(itp, kind):
        itp.check(f"{table}: never announced back to the link it came from", tl != l)
        check_report(itp, m, table)
      else: itp.check(f"{table}: only route changes are announced", False)
      havoc_links(itp, w)
      if itp.choose(2, "closed") == 1: raise PyRaise(cce(itp))
    itp.models[LINK + ".send"] = send
    itp.models[SW + ".request_in_topics_change"] = lambda *a: None
    from contracts.p03 import count_hint
    itp.loop_hints.append(count_hint(itp, None))
    msg = itp.call(mcls(itp, recv), [a, r])
    st, v = attempt(itp, lambda: run(itp, w.o, "handle_message", [msg, Sym(l, L)]))
    itp.check(f"{table}: never fails", st == "ok")
    itp.check(f"{table}: recorded", itp.st.ghost["done"] == (table,))
    k = fresh_link(itp)
    n1 = itp.fld_get(LINK, "nsent", k)
    UPD, REM = itp.st.ghost["rep"] or (empty_set(PID), empty_set(INT))
    x, y = z3.Const("x!rp", sort(PID)), z3.Int("y!rp")
    some = z3.Or(z3.Exists([x], sel(UPD, x)), z3.Exists([y], sel(REM, y)))
    itp.check(f"{table}: a change is announced once to every other link", n1 == sel(n0, k) + z3.If(z3.And(some, is_link(w, k, links0), k != l), 1, 0))
  return s

def check_report(itp, m, table):
  """the announcement says exactly what the tracker reported as changed"""
  UPD, REM = itp.st.ghost["rep"]
  i, c = itp.fresh_const("i", z3.IntSort()), itp.fresh_const("c", z3.IntSort())
  itp.check(f"{table}: announces exactly the changed best prices", sel(field_set(itp, m, "add", PID), p(i, c)) == sel(UPD, p(i, c)))
  itp.check(f"{table}: announces exactly the ids that became unreachable", sel(field_set(itp, m, "remove", INT), i) == sel(REM, i))

def s_lost(itp):
  """a link is removed: both tables forget it before anything is sent, and every change is announced to every other link"""
  sw_setup(itp)
  w = new_switch(itp)
  l = fresh_link(itp, "lost")
  itp.assume(is_link(w, l))
  tabs = {n: itp.fld_get(LINK, n, l) for n in ("addresses", "out_topics")}
  for n in tabs: known_offers(itp, w, l, n, tabs[n])
  itp.st.ghost["rep"] = {}
  def on_report(n, v0, v1, UPD, REM): itp.st.ghost["rep"] = dict(itp.st.ghost["rep"], **{n: (UPD, REM)})
  track(itp, w, lambda n: (lambda i, c: offers(tabs[n], i, c), lambda i, c: z3.BoolVal(False)), on_report)
  itp.st.ghost["told"] = ()
  def broadcast(itp_, args, kw):
    itp.check("lost link: both tables are corrected before anything is sent", set(itp.st.ghost["done"]) == {"addresses", "out_topics"})
    itp.check("lost link: it is no link any more", z3.Not(is_link(w, l, links_now(itp, w))))
    m = itp.deref(args[1])
    for n, (kind, _, _) in KINDS.items():
      if isinstance(m, ObjRef) and itp.st.cells[m.addr].cls is mcls(itp, kind):
        UPD, REM = itp.st.ghost["rep"][n]
        i, c = itp.fresh_const("i", z3.IntSort()), itp.fresh_const("c", z3.IntSort())
        itp.check(f"{n}: announces exactly the changed best prices", sel(field_set(itp, m, "add", PID), p(i, c)) == sel(UPD, p(i, c)))
        itp.check(f"{n}: announces exactly the ids that became unreachable", sel(field_set(itp, m, "remove", INT), i) == sel(REM, i))
        itp.st.ghost["told"] = itp.st.ghost["told"] + (n,)
  itp.models[SW + ".broadcast"] = broadcast
  def request(itp_, args, kw): itp.check("lost link: both tables are corrected before anything is requested", set(itp.st.ghost["done"]) == {"addresses", "out_topics"})
  itp.models[SW + ".request_in_topics_change"] = request
  idtracker_models(itp)
  itp.ext_models["asyncio.current_task"] = lambda itp_, a, k: itp.fresh("me", TASK)
  itp.any_methods[("task", "cancel")] = lambda *a: None
  st, v = attempt(itp, lambda: run(itp, w.o, "remove_link", [Sym(l, L)]))
  itp.check("lost link: removal never fails", st == "ok")
  if st != "ok": return
  itp.check("lost link: both tables are corrected", set(itp.st.ghost["done"]) == {"addresses", "out_topics"})
  itp.check("lost link: no other link is removed", sel_other(itp, w, l))
  for n in KINDS:
    UPD, REM = itp.st.ghost["rep"][n]
    x, y = itp.fresh_const("x", sort(PID)), itp.fresh_const("y", z3.IntSort())
    k = itp.st.ghost["told"].count(n)
    itp.check(f"{n}: a change is announced, once", k == 1 if k else z3.Not(z3.Or(sel(UPD, x), sel(REM, y))))

def sel_other(itp, w, l):
  k = fresh_link(itp)
  return z3.Implies(k != l, is_link(w, k, links_now(itp, w)) == is_link(w, k))

def idtracker_models(itp, after=None):
  IT = "streamtasks.utils:IdTracker"
  def model(kind):
    def f(itp_, args, kw):
      S = term_set(itp, args[1], INT)
      o = args[0]
      m0 = itp.to_term(itp.getattr(o, "_map"), COUNTS)
      m1 = itp.fresh_const("counts", sort(COUNTS))
      itp.setattr(o, "_map", itp.new_cont("map", COUNTS, m1))
      F = itp.fresh_const("crossed", sort(IDS))
      i = z3.Int("i!it")
      itp.assume(cinv(m1))
      itp.assume(M.mk_forall([i], ccount(m1, i) == (ccount(m0, i) + one(sel(S, i)) if kind == "add" else ccount(m0, i) - one(z3.And(sel(S, i), ccount(m0, i) > 0))), [[sel(m_dom(COUNTS, m1), i)], [sel(m_val(COUNTS, m1), i)]]))
      itp.assume(M.mk_forall([i], sel(F, i) == (z3.And(sel(m_dom(COUNTS, m1), i), z3.Not(sel(m_dom(COUNTS, m0), i))) if kind == "add" else z3.And(sel(m_dom(COUNTS, m0), i), z3.Not(sel(m_dom(COUNTS, m1), i)))), [[sel(F, i)], [sel(m_dom(COUNTS, m1), i)]]))
      if after: after(kind, o, m0, m1, S, F)
      return itp.new_cont("set", IDS, F)
    return f
  itp.models[IT + ".add_many"] = model("add")
  itp.models[IT + ".remove_many"] = model("remove")
def ccount(m, i): return z3.If(sel(m_dom(COUNTS, m), i), sel(m_val(COUNTS, m), i), z3.IntVal(0))
def cinv(m):
  i = z3.Int("i!ci")
  return M.mk_forall([i], z3.Implies(sel(m_dom(COUNTS, m), i), sel(m_val(COUNTS, m), i) >= 1), [[sel(m_dom(COUNTS, m), i)], [sel(m_val(COUNTS, m), i)]])

def s_new(itp):
  """a link joins: its routes are counted exactly once before it is accepted, and it is told the whole table"""
  sw_setup(itp)
  w = new_switch(itp)
  l = fresh_link(itp, "joining")
  itp.assume(z3.Not(is_link(w, l)))
  tabs = {n: itp.fld_get(LINK, n, l) for n in ("addresses", "out_topics")}
  v = {n: T.view(itp, itp.getattr(w.o, n)) for n in tabs}
  for n in tabs: itp.assume(v[n].inv())
  itp.st.ghost["rep"], itp.st.ghost["told"], itp.st.ghost["spread"], itp.st.ghost["acc"] = {}, (), (), False
  def on_report(n, v0, v1, UPD, REM): itp.st.ghost["rep"] = dict(itp.st.ghost["rep"], **{n: UPD})
  track(itp, w, lambda n: (lambda i, c: z3.BoolVal(False), lambda i, c: offers(tabs[n], i, c)), on_report)
  def send(itp_, args, kw):
    itp.check("new link: only the new link is told the table", itp.to_term(args[0], L) == l)
    m = itp.deref(args[1])
    for n, (kind, _, _) in KINDS.items():
      if isinstance(m, ObjRef) and itp.st.cells[m.addr].cls is mcls(itp, kind):
        i, c = itp.fresh_const("i", z3.IntSort()), itp.fresh_const("c", z3.IntSort())
        itp.check(f"{n}: the new link is told every known route at its best price", sel(field_set(itp, m, "add", PID), p(i, c)) == z3.And(v[n].known(i), v[n].best(i) == c))
        itp.check(f"{n}: nothing is withdrawn from the new link", z3.Not(sel(field_set(itp, m, "remove", INT), i)))
        itp.st.ghost["told"] = itp.st.ghost["told"] + (n,)
  itp.models[LINK + ".send"] = send
  def broadcast(itp_, args, kw):
    m = itp.deref(args[1])
    for n, (kind, _, _) in KINDS.items():
      if isinstance(m, ObjRef) and itp.st.cells[m.addr].cls is mcls(itp, kind):
        i, c = itp.fresh_const("i", z3.IntSort()), itp.fresh_const("c", z3.IntSort())
        itp.check(f"{n}: announces exactly the changed best prices", z3.And(sel(field_set(itp, m, "add", PID), p(i, c)) == sel(itp.st.ghost["rep"][n], p(i, c)), z3.Not(sel(field_set(itp, m, "remove", INT), i))))
        itp.st.ghost["spread"] = itp.st.ghost["spread"] + (n,)
  itp.models[SW + ".broadcast"] = broadcast
  itp.models[SW + ".request_in_topics_change"] = lambda *a: None
  idtracker_models(itp)
  itp.models[SW + "._run_link_receiving"] = lambda *a: None
  itp.ext_models["asyncio.create_task"] = lambda itp_, a, k: itp.fresh("task", TASK)
  st, r = attempt(itp, lambda: run(itp, w.o, "add_link", [Sym(l, L)]))
  itp.check("new link: adding never fails", st == "ok")
  if st != "ok": return
  itp.check("new link: it is a link now", is_link(w, l, links_now(itp, w)))
  itp.check("new link: no other link joins or leaves", sel_other(itp, w, l))
  itp.check("new link: its routes are counted", set(itp.st.ghost["done"]) == {"addresses", "out_topics"})
  for n in KINDS:
    i = itp.fresh_const("i", z3.IntSort())
    k = itp.st.ghost["told"].count(n)
    itp.check(f"{n}: the known routes are told, once", k == 1 if k else z3.Not(v[n].known(i)))
    x = itp.fresh_const("x", sort(PID))
    k = itp.st.ghost["spread"].count(n)
    itp.check(f"{n}: a change is announced, once", k == 1 if k else z3.Not(sel(itp.st.ghost["rep"][n], x)))

def s_lemma(itp):
  """the counts are the numbers of connected links that offer a route at that price => the table is the cheapest offers"""
  sw_setup(itp)
  w = new_switch(itp)
  table = "addresses"
  v = T.view(itp, itp.getattr(w.o, table))
  itp.assume(v.inv())
  # number(i, c): the number of connected links that offer i at price c
  number = itp.fresh_fn("number", z3.IntSort(), z3.IntSort(), z3.IntSort())
  some = itp.fresh_fn("some", z3.IntSort(), z3.IntSort(), sort(L))
  arr = itp.fld_arr(LINK, table)
  i, c = z3.Int("i!lm"), z3.Int("c!lm"); l = z3.Const("l!lm", sort(L))
  member = lambda l, i, c: z3.And(is_link(w, l), offers(sel(arr, l), i, c))
  itp.assume(M.mk_forall([i, c], z3.And(number(i, c) >= 0, z3.Implies(number(i, c) >= 1, member(some(i, c), i, c))), [[number(i, c)]]))
  itp.assume(M.mk_forall([i, l], z3.Implies(member(l, i, val(sel(arr, l), i)), number(i, val(sel(arr, l), i)) >= 1), [[dom(sel(arr, l), i)]]))
  itp.assume(M.mk_forall([i, c], v.cnt(i, c) == number(i, c), [[number(i, c)], [sel(m_dom(INNER, v.inner(i)), c)]]))
  a = itp.fresh_const("a", z3.IntSort()); k = fresh_link(itp)
  ow = some(a, v.best(a))
  itp.check("lemma: a known id is offered by a connected link at the best price", z3.Implies(v.known(a), member(ow, a, v.best(a))))
  t = sel(arr, k)
  itp.check("lemma: what a connected link offers is known, at no higher price", z3.Implies(z3.And(is_link(w, k), dom(t, a)), z3.And(v.known(a), v.best(a) <= val(t, a))))
