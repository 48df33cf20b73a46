"""P18: path patterns, routes, fall-through, files.

A text is an abstract value with a length, its sub-texts SUB(t, a, b) and whether it holds a slash; what the string methods
give is assumed in those terms (`texts`).  `spelled(k, c, m)`: the first k parts of the pattern and the parameters between
them spell the first c characters of the path, with the parameter values m - the smallest relation closed under the two rules
of `spelling`.  The matcher is verified against it for patterns of any length; that substituting m gives back the path is an
induction over the rules, whose step is an obligation of its own, over the real `construct`."""
from contracts.net import *

A = "streamtasks.asgiserver"; PP = A + ":PathPattern"
TX = ANY("text"); NAME = STR
PARTS, PRM = LIST(TX), TUP(OPT(NAME), BOOL); PRMS = LIST(PRM); VALS = MAP(NAME, TX)
def pname(p): return acc(sort(PRM), 0, 0, p)
def pslash(p): return acc(sort(PRM), 0, 1, p)
def named(p): return u_is(OPT(NAME), OPT(NAME).args.index(NAME), pname(p))
def nm(p): return u_get(OPT(NAME), OPT(NAME).args.index(NAME), pname(p))

class Texts:
  def __init__(self, itp):
    T = sort(TX); I = z3.IntSort(); self.itp = itp
    self.SUB, self.LEN, self.SLASH = z3.Function("sub_text", T, I, I, T), z3.Function("len_text", T, I), z3.Function("has_slash", T, z3.BoolSort())
    self.CAT = z3.Function("cat_text", T, T, T); self.EMPTY = z3.Const("empty_text", T)
    t, u = z3.Const("t!tx", T), z3.Const("u!tx", T); a, b, c = z3.Ints("a!tx b!tx c!tx")
    L, S = self.LEN, self.SUB
    itp.assume(M.mk_forall([t], z3.And(L(t) >= 0, (L(t) == 0) == (t == self.EMPTY)), [[L(t)]]))
    itp.assume(M.mk_forall([t, a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= L(t)), L(S(t, a, b)) == b - a), [[S(t, a, b)]]))
    itp.assume(M.mk_forall([t, a, b], z3.Implies(z3.And(a == 0, b == L(t)), S(t, a, b) == t), [[S(t, a, b)]]))
    itp.assume(M.mk_forall([t, a, b, c], z3.Implies(z3.And(0 <= a, a <= b, b <= c, c <= L(t)), self.CAT(S(t, a, b), S(t, b, c)) == S(t, a, c)), [[S(t, a, b), S(t, b, c)]]))
    itp.assume(M.mk_forall([t], z3.And(self.CAT(self.EMPTY, t) == t, self.CAT(t, self.EMPTY) == t), [[self.CAT(self.EMPTY, t)], [self.CAT(t, self.EMPTY)]]))
    itp.assume(z3.Not(self.SLASH(self.EMPTY)))
    itp.assumptions.add("the texts a pattern is matched against have the usual slices, lengths, find, startswith and endswith (abstract texts)")
    am = itp.any_methods
    def num(v): return itp.to_term(v, INT)
    def sure(f): return itp.solver.quick([g for g, _ in itp.st.pc], f, 400)
    def norm(x, t): return x if sure(z3.And(0 <= x, x <= L(t))) else z3.If(x < 0, z3.If(x + L(t) < 0, 0, x + L(t)), z3.If(x > L(t), L(t), x))
    def cut(t, lo, hi):
      lo = norm(num(lo), t) if lo is not None else z3.IntVal(0); hi = norm(num(hi), t) if hi is not None else L(t)
      return Sym(S(t, lo, hi if sure(lo <= hi) else z3.If(hi < lo, lo, hi)), TX), lo, hi
    def getitem(i, s, a, k):
      if not isinstance(a[0], SliceV) or a[0].step is not None: raise Unsupported("one character of a text")
      return cut(s.t, a[0].lo, a[0].hi)[0]
    def at(s, u, i): return z3.And(0 <= i, i + L(u) <= L(s), S(s, i, i + L(u)) == u)
    def starts(i, s, a, k):
      lo = num(a[1]) if len(a) > 1 else z3.IntVal(0)
      if len(a) > 2: raise Unsupported("startswith with an end")
      return Sym(at(s.t, itp.to_term(a[0], TX), lo), BOOL)
    def ends(i, s, a, k):
      u = itp.to_term(a[0], TX)
      if len(a) > 1: raise Unsupported("endswith with a start")
      return Sym(at(s.t, u, L(s.t) - L(u)), BOOL)
    def find(i, s, a, k):
      u = itp.to_term(a[0], TX); lo = num(a[1]) if len(a) > 1 else z3.IntVal(0)
      if len(a) > 2: raise Unsupported("find with an end")
      r = itp.fresh("found", INT); j = z3.Int("j!fi")
      itp.assume(z3.Or(r.t == -1, z3.And(r.t >= lo, at(s.t, u, r.t))))
      itp.assume(M.mk_forall([j], z3.Implies(z3.And(lo <= j, at(s.t, u, j)), z3.And(r.t >= 0, r.t <= j)), [[S(s.t, j, j + L(u))]]))
      return r
    def holds(i, s, a, k):
      x = itp.resolve(a[0])
      if x != "/": raise Unsupported("part of a text")
      return Sym(self.SLASH(s.t), BOOL)
    am[("text", "__getitem__")] = getitem; am[("text", "startswith")] = starts; am[("text", "endswith")] = ends; am[("text", "find")] = find
    am[("text", "__contains__")] = holds; am[("text", "__len__")] = lambda i, s, a, k: Sym(L(s.t), INT)
    am[("text", "$Add")] = lambda i, s, a, k: Sym(self.CAT(itp.to_term(a[0] if len(a) == 2 else s, TX), itp.to_term(a[-1], TX)), TX)
    conc = {}
    def inject(i, v):
      if not isinstance(v, str): raise Unsupported("not a text")
      if v == "": return self.EMPTY
      if v not in conc:
        conc[v] = z3.Const(f"text_{len(conc)}", T); itp.assume(z3.And(L(conc[v]) == len(v), self.SLASH(conc[v]) == ("/" in v)))
      return conc[v]
    itp.any_inject = {**getattr(itp, "any_inject", {}), "text": inject}

class Pattern:
  def __init__(self, itp):
    setup(itp); self.itp = itp; self.tx = Texts(itp)
    self.parts, self.params = itp.fresh_const("parts", sort(PARTS)), itp.fresh_const("params", sort(PRMS))
    self.n = l_len(PRMS, self.params)
    itp.assume(z3.And(self.n >= 0, l_len(PARTS, self.parts) == self.n + 1))
    self.o = itp.new_obj(itp.cls_by_qual(PP), {"parts": itp.new_cont("list", PARTS, self.parts), "params": itp.new_cont("list", PRMS, self.params)})
  def part(self, i): return sel(l_arr(PARTS, self.parts), i)
  def param(self, i): return sel(l_arr(PRMS, self.params), i)

def one_rule(p, path, k, c, m, e, m2):
  """one more part and parameter"""
  q, pt = p.param(k), p.part(k); L = p.tx.LEN; S = p.tx.SUB; v = S(path, c + L(pt), e)
  return z3.And(0 <= k, k < p.n, 0 <= c, c + L(pt) <= e, e <= L(path), S(path, c, c + L(pt)) == pt, z3.Or(pslash(q), z3.Not(p.tx.SLASH(v))),
    z3.If(named(q), z3.And(z3.Implies(sel(m_dom(VALS, m), nm(q)), sel(m_val(VALS, m), nm(q)) == v), m_dom(VALS, m2) == z3.Store(m_dom(VALS, m), nm(q), True), m_val(VALS, m2) == z3.Store(m_val(VALS, m), nm(q), v)), m2 == m))
def spelling(p, path):
  """the relation, by its rules"""
  itp = p.itp
  SP = z3.Function("spelled", z3.IntSort(), z3.IntSort(), sort(VALS), z3.BoolSort())
  k, c, e = z3.Ints("k!sp c!sp e!sp"); m, m2 = z3.Const("m!sp", sort(VALS)), z3.Const("m2!sp", sort(VALS))
  itp.assume(M.mk_forall([m], z3.Implies(m_dom(VALS, m) == empty_set(NAME), SP(0, 0, m)), [[SP(0, 0, m)]]))
  itp.assume(M.mk_forall([k, c, m, e, m2], z3.Implies(z3.And(SP(k, c, m), one_rule(p, path, k, c, m, e, m2)), SP(k + 1, e, m2)), [[SP(k, c, m), SP(k + 1, e, m2)]]))
  return SP

def s_match(itp):
  p = Pattern(itp); path = itp.fresh("path", TX); L = p.tx.LEN
  SP = spelling(p, path.t)
  def hint(lc):
    if lc.seg is None: return []
    out = []
    for mk_, _ in lc.local_keys(lambda t: t is VALS):
      for ck, _ in lc.local_keys(lambda t: t is INT):
        out.append((f"inside {ck}", lambda D, ck=ck: z3.And(0 <= lc.term(ck), lc.term(ck) <= L(path.t), z3.Implies(lc.index == p.n, lc.term(ck) + L(p.part(p.n)) == L(path.t)))))
        out.append((f"ends {ck}", lambda D, ck=ck: z3.Implies(z3.And(lc.index == p.n, p.n > 0), p.tx.SUB(path.t, lc.term(ck), L(path.t)) == p.part(p.n))))
        out.append((f"spelled so far {ck} {mk_}", lambda D, ck=ck, mk_=mk_: SP(lc.index, lc.term(ck), lc.term(mk_))))
    return out
  itp.loop_hints.append(hint)
  st, r = attempt(itp, lambda: itp.call(itp.getattr(p.o, "match"), [path]))
  itp.check("matching never fails", st == "ok")
  if st != "ok" or r is None: return
  m = itp.to_term(r, VALS)
  last = p.part(p.n); c = L(path.t) - L(last)
  itp.check("what is accepted is spelled by the pattern with these values, to the very end", z3.And(c >= 0, p.tx.SUB(path.t, c, L(path.t)) == last, SP(p.n, c, m)))

def substitution(itp):
  """a pattern whose parameters are all named, values for all of them, the real `construct` run on them"""
  p = Pattern(itp); tx = p.tx; itp.jump = None
  m = itp.fresh_const("values", sort(VALS)); j = z3.Int("j!su")
  itp.assume(M.mk_forall([j], z3.Implies(z3.And(0 <= j, j < p.n), named(p.param(j))), [[p.param(j)]]))
  JOIN = z3.Function("joined", z3.ArraySort(z3.IntSort(), sort(TX)), z3.IntSort(), sort(TX))
  def join(i, a, k):
    if itp.resolve(a[0]) != "": raise Unsupported("a text between joined texts")
    t = itp.to_term(M.build_list(itp, a[1]) if not isinstance(a[1], LocRef) else a[1], PARTS)
    itp.jump = t
    return Sym(JOIN(l_arr(PARTS, t), l_len(PARTS, t)), TX)
  itp.ext_models["$join"] = join
  def val(j): return sel(m_val(VALS, m), nm(p.param(j)))
  def fine(j): return z3.And(sel(m_dom(VALS, m), nm(p.param(j))), z3.Or(pslash(p.param(j)), z3.Not(tx.SLASH(val(j)))))
  return p, m, JOIN, val, fine

def s_construct(itp):
  p, m, JOIN, val, fine = substitution(itp); j = z3.Int("j!sc")
  itp.assume(M.mk_forall([j], z3.Implies(z3.And(0 <= j, j < p.n), fine(j)), [[p.param(j)]]))
  def hint(lc):
    out = []
    for lk, _ in lc.local_keys(lambda t: t is PARTS):
      A_, N_ = (lambda lk=lk: l_arr(PARTS, lc.term(lk))), (lambda lk=lk: l_len(PARTS, lc.term(lk)))
      x = z3.Int("x!h")
      out.append((f"values {lk}", lambda D, A_=A_, N_=N_: z3.And(N_() == lc.index, M.mk_forall([x], z3.Implies(z3.And(0 <= x, x < lc.index), sel(A_(), x) == val(x)), [[sel(A_(), x)]]))))
      out.append((f"alternating {lk}", lambda D, A_=A_, N_=N_: z3.And(N_() == 2 * lc.index, M.mk_forall([x], z3.Implies(z3.And(0 <= x, x < lc.index), z3.And(sel(A_(), 2 * x) == p.part(x), sel(A_(), 2 * x + 1) == val(x))), [[p.part(x)]]))))
    return out
  itp.loop_hints.append(hint)
  st, r = attempt(itp, lambda: itp.call(itp.getattr(p.o, "construct"), [itp.new_cont("map", VALS, m)]))
  itp.check("substituting fitting values never fails", st == "ok")
  if st != "ok" or itp.jump is None: itp.check("what is joined is known", itp.jump is not None or st != "ok"); return
  a, n = l_arr(PARTS, itp.jump), l_len(PARTS, itp.jump); x = itp.fresh_const("x", z3.IntSort()); itp.assume(z3.And(0 <= x, x < p.n)); itp.assume(p.part(x) == p.part(x))
  itp.check("the result joins every part and the value of the parameter after it, and the last part", z3.And(n == 2 * p.n + 1, sel(a, 2 * p.n) == p.part(p.n), sel(a, 2 * x) == p.part(x), sel(a, 2 * x + 1) == val(x)))
  itp.check("and is what is returned", itp.to_term(r, TX) == JOIN(a, n))

def s_substituting(itp):
  """induction over the rules of `spelled`: what the pattern spells is what joining its parts and the values gives"""
  p, m, JOIN, val, fine = substitution(itp); tx = p.tx; I = lambda n: itp.fresh_const(n, z3.IntSort())
  path, k, c, e = itp.fresh("path", TX).t, I("k"), I("c"), I("e"); m1, m2 = itp.fresh_const("m1", sort(VALS)), itp.fresh_const("m2", sort(VALS)); R = itp.fresh_const("R", z3.ArraySort(z3.IntSort(), sort(TX)))
  def within(a, b, x): return z3.Implies(sel(m_dom(VALS, a), x), z3.And(sel(m_dom(VALS, b), x), sel(m_val(VALS, a), x) == sel(m_val(VALS, b), x)))
  x = z3.Const("x!ss", sort(NAME)); j = z3.Int("j!ss")
  def has(a, j): return z3.And(sel(m_dom(VALS, a), nm(p.param(j))), z3.Or(pslash(p.param(j)), z3.Not(tx.SLASH(sel(m_val(VALS, a), nm(p.param(j)))))))
  # what joining means, for the first 2k, 2k+1 and 2k+2 texts
  itp.assume(z3.And(JOIN(R, 0) == tx.EMPTY, JOIN(R, 2 * k + 1) == tx.CAT(JOIN(R, 2 * k), sel(R, 2 * k)), JOIN(R, 2 * k + 2) == tx.CAT(JOIN(R, 2 * k + 1), sel(R, 2 * k + 1))))
  itp.assume(tx.LEN(path) >= 0); itp.assume(tx.LEN(tx.SUB(path, 0, 0)) == 0)
  itp.check("nothing is spelled by nothing", JOIN(R, 0) == tx.SUB(path, 0, 0))
  itp.assume(one_rule(p, path, k, c, m1, e, m2))
  b = c + tx.LEN(p.part(k))
  y = itp.fresh_const("y", sort(NAME)); i = I("i")
  itp.check("a value once set is kept", within(m1, m2, y))
  itp.assume(M.mk_forall([j], z3.Implies(z3.And(0 <= j, j < k), has(m1, j)), [[p.param(j)]]))
  itp.assume(z3.And(0 <= i, i < k + 1)); itp.assume(z3.And(named(p.param(i)), named(p.param(k))))
  itp.check("every parameter passed has a value that fits it", has(m2, i))
  itp.assume(M.mk_forall([x], within(m2, m, x), [[sel(m_dom(VALS, m), x)]])); itp.assume(within(m2, m, nm(p.param(k))))
  itp.assume(z3.And(sel(R, 2 * k) == p.part(k), sel(R, 2 * k + 1) == val(k)))
  itp.assume(JOIN(R, 2 * k) == tx.SUB(path, 0, c))
  itp.assume(z3.And(tx.SUB(path, c, b) == p.part(k)))
  itp.check("one more part and value spell the path to where the rule says", JOIN(R, 2 * k + 2) == tx.SUB(path, 0, e))
  L = tx.LEN(path); itp.assume(z3.And(sel(R, 2 * k + 2) == p.part(k + 1), JOIN(R, 2 * k + 3) == tx.CAT(JOIN(R, 2 * k + 2), sel(R, 2 * k + 2)), e == L - tx.LEN(p.part(k + 1)), tx.SUB(path, e, L) == p.part(k + 1)))
  itp.check("with the last part the whole path is spelled", JOIN(R, 2 * k + 3) == path)


# ---- routes and stacks ----
H = ANY("handler"); HS = LIST(H)
class Web:
  """a request of any type with whatever state it came with; handlers record what they are called with"""
  def __init__(self, itp, types=("http", "websocket", "lifespan")):
    setup(itp); self.itp = itp; self.calls = []
    self.type = types[itp.choose(len(types))]; self.path, self.method, self.other = itp.fresh("path", STR), itp.fresh("method", STR), itp.fresh("other", ANY("thing"))
    self.fields = {"type": self.type, "other": self.other}
    if self.type != "lifespan": self.fields["path"] = self.path
    if self.type == "http": self.fields["method"] = self.method
    self.outer = Sym(z3.Const("outer_next", sort(H)), H); self.mark = itp.fresh("mark", ANY("thing"))
    k = itp.choose(3); self.nested = k == 2
    if k == 1: self.fields["state"] = itp.new_dict({"mark": self.mark})
    if k == 2: self.fields["state"] = itp.new_dict({"mark": self.mark, "nextFn": self.outer})
    self.state = self.fields.get("state"); self.scope = itp.new_dict(dict(self.fields))
    self.recv, self.send = Sym(z3.Const("recv_fn", sort(ANY("recv"))), ANY("recv")), Sym(z3.Const("send_fn", sort(ANY("send"))), ANY("send"))
    itp.any_methods[("handler", "__call__")] = lambda i, s, a, k: CoroV(lambda: self.called(s, a))
    itp.any_methods[("recv", "__call__")] = lambda i, s, a, k: CoroV(lambda: itp.new_dict({"type": "got"}))
    itp.any_methods[("send", "__call__")] = lambda i, s, a, k: CoroV(lambda: self.sent.append(a[0]))
    self.sent = []
  def called(self, h, a):
    self.calls.append((h, self.dict(a[0]), a)); return None
  def dict(self, d):
    d = self.itp.resolve(d); c = self.itp.content(d) if isinstance(d, LocRef) else None
    if not isinstance(c, PyDictC): raise Unsupported("a scope of another kind")
    return dict(c.d)
  def unchanged(self, what="the request's own scope is left as it was"):
    itp = self.itp; now = self.dict(self.scope)
    ok = [now.keys() == self.fields.keys()] + [itp.eq(now[k], v) for k, v in self.fields.items() if k != "state" and k in now]
    if self.state is not None:
      st = self.dict(now["state"]) if "state" in now else {}
      ok += [st.keys() == ({"mark", "nextFn"} if self.nested else {"mark"}), itp.eq(st.get("mark"), self.mark)] + ([itp.eq(st.get("nextFn"), self.outer)] if self.nested else [])
    itp.check(what, itp.conj(ok))
  def passed(self, i, name, but=()):
    """call i got everything the request had, but for the state entries `but`; returns its state"""
    itp = self.itp; h, sc, a = self.calls[i]
    ok = [sc.keys() - {"state"} == self.fields.keys() - {"state"}] + [itp.eq(sc[k], v) for k, v in self.fields.items() if k != "state" and k in sc]
    st = self.dict(sc["state"]) if "state" in sc else {}
    if self.state is not None: ok += [itp.eq(st.get("mark"), self.mark)] + ([itp.eq(st.get("nextFn"), self.outer)] if self.nested and "nextFn" not in but else [])
    ok += [st.keys() - set(but) == (({"mark", "nextFn"} if self.nested else {"mark"}) if self.state is not None else set()) - set(but)]
    itp.check(name, itp.conj(ok)); return st

def s_route(kind):
  def run(itp):
    takes = {"HTTPRoute": ("http",), "WebsocketRoute": ("websocket",), "TransportRoute": ("http", "websocket")}[kind]
    w = Web(itp); hit = [False, True][itp.choose(2)]; params = itp.new_dict({"a": itp.fresh("value", STR)}); asked = []
    itp.models[PP + ".match"] = lambda i, a, k: (asked.append(a[1]), params if hit else None)[1]
    h = Sym(z3.Const("route_handler", sort(H)), H); pat = itp.new_obj(itp.cls_by_qual(PP), {})
    f = {"handler": h, "path_matcher": pat}
    ms = itp.fresh_const("methods", sort(SET(STR)))
    if kind == "HTTPRoute": f["methods"] = itp.new_cont("set", SET(STR), ms)
    r = itp.new_obj(itp.cls_by_qual(f"{A}:{kind}"), f)
    st, x = attempt(itp, lambda: itp.await_(itp.call(r, [w.scope, w.recv, w.send])))
    fit = w.type in takes and hit and (kind != "HTTPRoute" or itp.decide(sel(ms, w.method.t)))
    for p_ in asked: itp.check("it is the path of the request that is matched", itp.eq(p_, w.path))
    if fit:
      itp.check("a request that fits is given to the route's handler, once", st == "ok" and len(w.calls) == 1 and itp.conj([itp.eq(w.calls[0][0], h)]))
      if len(w.calls) == 1:
        s = w.passed(0, "with everything the request had", ("params", "nextFn"))
        ps = itp.resolve(s.get("params"))
        itp.check("and the values the pattern extracted", ps is not None and itp.conj([len(w.dict(ps)) == 1, itp.eq(w.dict(ps).get("a"), w.dict(params)["a"])]))
        itp.check("with the connection of the request", itp.conj([connected(itp, w, w.calls[0][2])]))
    elif w.nested:
      itp.check("any other request goes to the next handler, once", st == "ok" and len(w.calls) == 1 and itp.conj([itp.eq(w.calls[0][0], w.outer)]))
      if len(w.calls) == 1:
        w.passed(0, "as it came"); itp.check("with the connection it came with", itp.conj([connected(itp, w, w.calls[0][2])]))
    else: itp.check("with no next handler it is reported as unhandled", st != "ok" and not w.calls and unhandled(itp, x))
    w.unchanged()
  return run
def unhandled(itp, x): return isinstance(x, ObjRef) and itp.st.cells[x.addr].cls is itp.cls_by_qual(A + ":NoHandlerError")
def ended(itp, n):
  n = itp.resolve(n)
  return isinstance(n, ObjRef) and itp.st.cells[n.addr].cls is itp.cls_by_qual(A + ":ASGINext") and itp.eq(M.length(itp, itp.getattr(n, "_handlers")), 0)
def connected(itp, w, a):
  """the receive and send a handler was given reach those of the request"""
  n = len(w.sent); ev = itp.new_dict({"type": "http.other"})
  itp.await_(itp.call(a[2], [ev])); g = w.dict(itp.await_(itp.call(a[1], [])))
  return len(w.sent) == n + 1 and g.get("type") == "got" and w.dict(w.sent[-1]).get("type") == "http.other"

def s_next(itp):
  w = Web(itp, ("http", "lifespan")); hs = itp.fresh_const("handlers", sort(HS)); itp.assume(l_len(HS, hs) >= 0)
  n = itp.new_obj(itp.cls_by_qual(A + ":ASGINext"), {"_handlers": itp.new_cont("list", HS, hs)})
  st, x = attempt(itp, lambda: itp.await_(itp.call(n, [w.scope, w.recv, w.send])))
  if st != "ok":
    itp.check("only a request nobody is left for is reported as unhandled", z3.And(l_len(HS, hs) == 0, not w.calls, unhandled(itp, x)))
  else: follows(itp, w, hs, l_len(HS, hs), None)
  w.unchanged()
def follows(itp, w, hs, n, last):
  """the request was given to the first handler, and whoever that passes it to comes right behind; `last` stands behind the handlers, if given"""
  itp.check("the request is given to one handler", len(w.calls) == 1)
  if len(w.calls) != 1: return
  first = sel(l_arr(HS, hs), 0)
  itp.check("which is the first in order", itp.eq(w.calls[0][0], Sym(first, H)) if last is None else (z3.And(n > 0, itp.to_term(w.calls[0][0], H) == first) if isinstance(itp.resolve(w.calls[0][0]), Sym) else False))
  s = w.passed(0, "with everything the request had", ("nextFn",))
  nx = itp.resolve(s.get("nextFn"))
  ok = isinstance(nx, ObjRef) and itp.st.cells[nx.addr].cls is itp.cls_by_qual(A + ":ASGINext")
  itp.check("behind it is a chain", ok)
  if not ok: return
  rest = itp.to_term(itp.getattr(nx, "_handlers"), HS); j = itp.fresh_const("j", z3.IntSort()); itp.assume(j >= 0)
  itp.check("of the others in order", z3.And(l_len(HS, rest) == n - 1, z3.Implies(j < l_len(HS, hs) - 1, sel(l_arr(HS, rest), j) == sel(l_arr(HS, hs), j + 1))))
  return rest
def s_stack(itp):
  w = Web(itp, ("http", "lifespan")); hs = itp.fresh_const("handlers", sort(HS)); itp.assume(l_len(HS, hs) >= 0)
  s = itp.new_obj(itp.cls_by_qual(A + ":ASGIRouter"), {"_handlers": itp.new_cont("list", HS, hs)})
  itp.models[A + ":asgi_scope_get_next_fn"] = lambda i, a, k: w.outer if w.nested else Sym(z3.Const("the_end", sort(H)), H)
  st, x = attempt(itp, lambda: itp.await_(itp.call(s, [w.scope, w.recv, w.send])))
  itp.check("a stack passes every request on", st == "ok")
  if st != "ok" or len(w.calls) != 1: itp.check("to one handler", len(w.calls) == 1); return
  n = l_len(HS, hs); last = w.outer.t if w.nested else z3.Const("the_end", sort(H)); first = sel(l_arr(HS, hs), 0)
  itp.check("to the first handler, with none to what comes behind the stack", itp.to_term(w.calls[0][0], H) == z3.If(n == 0, last, first))
  sc = w.passed(0, "with everything the request had", ("nextFn",)); nx = itp.resolve(sc.get("nextFn"))
  if itp.decide(n == 0): return
  rest = itp.to_term(itp.getattr(nx, "_handlers"), HS); j = itp.fresh_const("j", z3.IntSort()); itp.assume(z3.And(0 <= j, j < n))
  itp.check("then to the others in the order they were added, and at last to what comes behind the stack", z3.And(l_len(HS, rest) == n, sel(l_arr(HS, rest), j) == z3.If(j == n - 1, last, sel(l_arr(HS, hs), j + 1))))
  w.unchanged()

def same_names(itp, ms, want):
  t = term_set(itp, ms, STR); x = itp.fresh_const("name", sort(STR))
  return sel(t, x) == z3.Or([x == z3.StringVal(w) for w in want])
def s_added(itp):
  setup(itp); hs = itp.fresh_const("handlers", sort(HS)); itp.assume(l_len(HS, hs) >= 0)
  itp.any_methods[("handler", "__call__")] = lambda i, s, a, k: CoroV(lambda: None)
  inj = []
  def inject(i, v): inj.append(v); return z3.Const(f"route_{len(inj)}", sort(H))
  itp.any_inject = {**getattr(itp, "any_inject", {}), "handler": inject}
  itp.models[PP + ".__init__"] = lambda i, a, k: i.setattr(a[0], "pattern", a[1])
  r = itp.new_obj(itp.cls_by_qual(A + ":ASGIRouter"), {"_handlers": itp.new_cont("list", HS, hs)})
  h = Sym(z3.Const("the_handler", sort(H)), H); pat = itp.fresh("pattern", STR)
  what = ["get", "head", "post", "put", "delete", "connect", "options", "trace", "patch", "http_route", "websocket_route", "transport_route", "handler"][itp.choose(13)]
  if what == "handler": st, x = attempt(itp, lambda: itp.call(itp.getattr(r, what), [h]))
  elif what == "http_route": st, x = attempt(itp, lambda: itp.call(itp.call(itp.getattr(r, what), [pat, itp.new_list(["get", "Post"])]), [h]))
  else: st, x = attempt(itp, lambda: itp.call(itp.call(itp.getattr(r, what), [pat]), [h]))
  itp.check("registering succeeds and gives back the handler", st == "ok" and itp.conj([itp.eq(x, h)]))
  if st != "ok": return
  now = itp.to_term(itp.getattr(r, "_handlers"), HS); n = l_len(HS, hs); j = itp.fresh_const("j", z3.IntSort()); itp.assume(z3.And(0 <= j, j < n))
  itp.check("it comes last, behind those registered before", z3.And(l_len(HS, now) == n + 1, sel(l_arr(HS, now), j) == sel(l_arr(HS, hs), j)))
  if what == "handler": itp.check("as it is", sel(l_arr(HS, now), n) == h.t); return
  o = itp.resolve(inj[-1]) if inj else None
  kind = {"websocket_route": "WebsocketRoute", "transport_route": "TransportRoute"}.get(what, "HTTPRoute")
  ok = isinstance(o, ObjRef) and itp.st.cells[o.addr].cls is itp.cls_by_qual(f"{A}:{kind}")
  itp.check("as a route of its kind", ok)
  if not ok: return
  itp.check("for the handler and the pattern given", itp.conj([itp.eq(itp.getattr(o, "handler"), h), itp.eq(itp.getattr(itp.getattr(o, "path_matcher"), "pattern"), pat)]))
  if kind == "HTTPRoute":
    want = {"GET", "POST"} if what == "http_route" else {what.upper()}
    ms = itp.getattr(o, "methods"); itp.check("and the methods given", same_names(itp, ms, want))


# ---- files ----
P = ANY("path")
def s_files(itp):
  """a directory and whatever path a request names; the file system is arbitrary: which paths are files, directories or links is unknown"""
  setup(itp); T = sort(P); B = z3.BoolSort()
  RES, IN, DIR, EX = z3.Function("resolved", T, T), z3.Function("inside", T, T, B), z3.Function("is_dir", T, B), z3.Function("exists", T, B)
  x = z3.Const("x!fi", T); itp.assume(M.mk_forall([x], RES(RES(x)) == RES(x), [[RES(RES(x))]]))
  itp.assumptions.add("pathlib: resolve() gives the real file a path leads to, and d in p.parents for resolved d and p says p lies below d; nothing is moved between the check and the reading")
  am = itp.any_methods; root = itp.fresh("root_arg", P)
  am[("path", "resolve")] = lambda i, s, a, k: Sym(RES(s.t), P)
  am[("path", "joinpath")] = lambda i, s, a, k: i.fresh("joined", P)
  am[("path", "$Div")] = lambda i, s, a, k: i.fresh("joined", P)
  am[("path", "is_dir")] = lambda i, s, a, k: Sym(DIR(s.t), BOOL)
  am[("path", "is_file")] = lambda i, s, a, k: Sym(z3.And(EX(s.t), z3.Not(DIR(s.t))), BOOL)
  am[("path", "exists")] = lambda i, s, a, k: Sym(EX(s.t), BOOL)
  am[("path", "is_relative_to")] = lambda i, s, a, k: Sym(z3.Or(s.t == itp.to_term(a[0], P), IN(itp.to_term(a[0], P), s.t)), BOOL)
  TP = ANY("parents"); par = z3.Function("parents_of", T, sort(TP)); of = z3.Function("parents_are_of", sort(TP), T)
  def parents(i, s): itp.assume(of(par(s.t)) == s.t); return Sym(par(s.t), TP)
  itp.attr_models[("path", "parents")] = parents
  am[("parents", "__contains__")] = lambda i, s, a, k: Sym(IN(itp.to_term(a[0], P), of(s.t)), BOOL)
  def path(i, a, k):
    v = i.resolve(a[0])
    return v if isinstance(v, Sym) and v.ty is P else i.fresh("path", P)
  itp.ext_models["pathlib.Path"] = path
  itp.models[A + ":TransportContext.path"] = lambda i, a, k: i.fresh("request_path", STR)
  served, answered = [], []
  itp.models[A + ":HTTPContext.respond_file"] = lambda i, a, k: served.append(a[1] if len(a) > 1 else k["path"])
  itp.models[A + ":HTTPContext.respond_status"] = lambda i, a, k: answered.append(a[1])
  itp_idx = itp.fresh_const("index_files", sort(LIST(STR))); itp.assume(l_len(LIST(STR), itp_idx) >= 0); idxs = itp.new_cont("list", LIST(STR), itp_idx)
  st, h = attempt(itp, lambda: itp.call(itp.module_attr(itp.loader.module(A), "static_files_handler"), [root, idxs]))
  if st != "ok": return
  sc = itp.new_dict({"type": "http", "method": itp.fresh("method", STR), "path": itp.fresh("path_txt", STR)})
  st, r = attempt(itp, lambda: itp.await_(itp.call(h, [sc, Sym(z3.Const("recv_fn", sort(ANY("recv"))), ANY("recv")), Sym(z3.Const("send_fn", sort(ANY("send"))), ANY("send"))])))
  d = RES(root.t)
  for f in served:
    t = itp.to_term(f, P)
    itp.check("what is served is a file inside the directory, wherever links lead", z3.Implies(DIR(d), z3.And(IN(d, RES(t)), t == RES(t))))
    itp.check("where no directory is served it is the file itself", z3.Implies(z3.Not(DIR(d)), t == d))
  itp.check("at most one answer is given", len(served) + len(answered) <= 1)
  itp.check("and one unless it fails", st != "ok" or len(served) + len(answered) == 1)

SCENARIOS = [Scn("matching", s_match, [PP + ".match"]), Scn("substituting", s_construct, [PP + ".construct"]), Scn("substituting the matched values", s_substituting, [PP + ".construct", PP + ".match"])]
SCENARIOS += [Scn(f"route {k}", s_route(k), [f"{A}:{k}.__call__", A + ":asgi_type_handler", A + ":ContextBase.next", A + ":ContextBase.delegate", A + ":asgi_scope_set_state", A + ":asgi_scope_get_next_fn"]) for k in ("HTTPRoute", "WebsocketRoute", "TransportRoute")]
SCENARIOS += [Scn("next in the chain", s_next, [A + ":ASGINext.__call__"]), Scn("stack", s_stack, [A + ":ASGIHandlerStack.__call__", A + ":ASGINext.__call__"]), Scn("registering", s_added, [A + ":ASGIHandlerStack.add_handler", A + ":ASGIRouter.add_http_route", A + ":ASGIRouter.add_websocket_route", A + ":ASGIRouter.add_transport_route", A + ":ASGIRouter.http_route"]),
  Scn("serving files", s_files, [A + ":static_files_handler", A + ":static_file_handler", A + ":http_context_handler"])]

ASSUMPTIONS = ["pathlib: resolve() names the real file a path leads to, `d in p.parents` says p lies below d; nothing in the directory is moved between the check and the reading", "texts have the slices, lengths, find, startswith and endswith of str (abstract texts)"]
TRUSTED = ["pathlib", "re"]
BOUNDED = ["taking a pattern's text apart (PathPattern.__init__) by random patterns against an independent reading of them"]
