"""numpy arrays as contracts see them: a length (rows) and what each position holds; what numpy's slicing and joining give is assumed"""
from contracts.net import *

AR, EL = ANY("array"), ANY("element")
class Arrays:
  def __init__(self, itp):
    self.itp = itp; T, E, I = sort(AR), sort(EL), z3.IntSort()
    self.LEN, self.AT = z3.Function("len_array", T, I), z3.Function("at_array", T, I, E)
    self.ZERO = z3.Const("silence", E); self.COLS, self.DT = z3.Function("columns", T, I), z3.Function("dtype_of", T, sort(ANY("dtype")))
    t = z3.Const("t!ar", T); itp.assume(M.mk_forall([t], self.LEN(t) >= 0, [[self.LEN(t)]]))
    am = itp.any_methods; L, A = self.LEN, self.AT
    def size(i, s, a=None, k=None): return Sym(L(s.t), INT)
    def getitem(i, s, a, k):
      if isinstance(a[0], tuple): raise Unsupported("two-dimensional index")
      if not isinstance(a[0], SliceV): raise Unsupported("one element")
      if a[0].step is not None: raise Unsupported("slice step")
      def norm(x): x = itp.to_term(x, INT); return z3.If(x < 0, z3.If(x + L(s.t) < 0, 0, x + L(s.t)), z3.If(x > L(s.t), L(s.t), x))
      lo = z3.IntVal(0) if a[0].lo is None else norm(a[0].lo); hi = L(s.t) if a[0].hi is None else norm(a[0].hi)
      n = z3.If(hi < lo, 0, hi - lo); lo = z3.simplify(lo)
      return self.fresh("slice", n, lambda j: A(s.t, lo + j), s.t)
    def flat(i, s, a, k): return s if False else self.fresh("flat", L(s.t), lambda j: A(s.t, j), s.t)
    am[("array", "__getitem__")] = getitem; am[("array", "flatten")] = am[("array", "copy")] = am[("array", "ravel")] = flat
    am[("array", "__len__")] = size
    itp.attr_models[("array", "size")] = lambda i, s: Sym(L(s.t), INT)
    itp.attr_models[("array", "shape")] = lambda i, s: (Sym(L(s.t), INT), Sym(self.COLS(s.t), INT))
    itp.attr_models[("array", "dtype")] = lambda i, s: Sym(self.DT(s.t), ANY("dtype"))
    def concat(i, a, k):
      xs = itp.deref(a[0])
      if not isinstance(xs, tuple):
        c = itp.content(xs) if isinstance(xs, LocRef) else None
        if not isinstance(c, PyListC): raise Unsupported("joining a list of arrays")
        xs = tuple(c.items)
      if k.get("axis", a[1] if len(a) > 1 else 0) not in (0, None): raise Unsupported("joining along another axis")
      xs = [itp.resolve(x) for x in xs]; off = []; n = z3.IntVal(0)
      for x in xs: off.append(n); n = n + L(x.t)
      r = itp.fresh("joined", AR); j = z3.Int("j!cat")
      itp.assume(z3.And(L(r.t) == n, self.COLS(r.t) == self.COLS(xs[0].t), self.DT(r.t) == self.DT(xs[0].t)))
      body = A(xs[-1].t, j - off[-1])
      for x, o in list(zip(xs, off))[-2::-1]: body = z3.If(j < o + L(x.t), A(x.t, j - o), body)
      itp.assume(M.mk_forall([j], z3.Implies(z3.And(0 <= j, j < n), A(r.t, j) == body), [[A(r.t, j)]]))
      itp.check("only arrays of one kind are joined", z3.And([z3.And(self.COLS(x.t) == self.COLS(xs[0].t), self.DT(x.t) == self.DT(xs[0].t)) for x in xs[1:]]))
      return r
    def zeros(i, a, k):
      sh = itp.deref(a[0]); dt = k.get("dtype", a[1] if len(a) > 1 else None)
      if dt is None: dt = Sym(z3.Const("default_dtype", sort(ANY("dtype"))), ANY("dtype"))
      if not isinstance(sh, tuple) or len(sh) != 2: raise Unsupported("zeros of another shape")
      n = itp.to_term(sh[0], INT)
      if itp.decide(n < 0): itp.raise_py(ValueError, "negative dimensions are not allowed")
      r = self.fresh("zeros", n, lambda j: self.ZERO)
      itp.assume(z3.And(self.COLS(r.t) == itp.to_term(sh[1], INT), self.DT(r.t) == itp.to_term(dt, ANY("dtype")))); return r
    itp.ext_models["numpy.concatenate"] = concat; itp.ext_models["numpy.zeros"] = zeros
    itp.assumptions.add("numpy's slices, flatten, concatenate and zeros give the elements numpy documents (arrays as lengths and positions)")
  def fresh(self, name, n, at, like=None):
    itp = self.itp; r = itp.fresh(name, AR); j = z3.Int("j!fr")
    itp.assume(self.LEN(r.t) == n); itp.assume(M.mk_forall([j], z3.Implies(z3.And(0 <= j, j < n), self.AT(r.t, j) == at(j)), [[self.AT(r.t, j)]]))
    if like is not None: itp.assume(z3.And(self.COLS(r.t) == self.COLS(like), self.DT(r.t) == self.DT(like)))
    return r
