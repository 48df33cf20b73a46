"""P28: merge_images, the C++ function that runs, translated on every run from clang's typed syntax tree of the current file"""
from contracts.net import *
from pydv import cpp
from pydv.src import Module
import tempfile, os

FILE, FN = "streamtasks/media/video_perf_all.cpp", "merge_images"
MUL = z3.Function("product", z3.IntSort(), z3.IntSort(), z3.IntSort())     # multiplication; only facts true of it are assumed
PTR = TUP(INT, INT); OUTL = LIST(INT)
def const(x): return x if isinstance(x, int) and not isinstance(x, bool) else None
class Cpp:
  """what C++ integers, pointers, std::string, py::bytes and std::vector do.  Block i >= 0 is image i (read only), block -1 is the string made."""
  def __init__(self, itp):
    self.itp = itp; I = z3.IntSort()
    try: text = cpp.Translation(os.path.join(itp.loader.root, FILE), FN).text
    except cpp.Refused as e: raise Unsupported("C++: " + str(e))
    with tempfile.TemporaryDirectory() as d:
      with open(os.path.join(d, "cppmod.py"), "w") as fd: fd.write(text)
      itp.loader.mods["cppmod"] = Module("cppmod", os.path.join(d, "cppmod.py"), itp.loader)
    itp.unroll_while = 8
    self.LENI, self.IMG = z3.Function("image_bytes", I, I), z3.Function("image_byte", I, I, I)
    k, q = z3.Ints("k!im q!im")
    itp.assume(M.mk_forall([k, q], z3.And(self.IMG(k, q) >= 0, self.IMG(k, q) <= 255), [[self.IMG(k, q)]]))
    itp.assume(M.mk_forall([k], z3.And(self.LENI(k) >= 0, self.LENI(k) < 2**63), [[self.LENI(k)]]))
    self.size_out = None; self.n = None; self.ranges, self.inputs = {}, {}
    m = lambda n, f: itp.models.__setitem__("cppmod:" + n, lambda i, a, kw: f(*a))
    for b in (8, 16, 32, 64):
      m(f"_u{b}", lambda x, b=b: self.wrap(x, b)); m(f"_i{b}", lambda x, b=b: self.signed(x, b))
    m("_mul", self.mul); m("_div", lambda a, b: self.division(a, b, True)); m("_mod", lambda a, b: self.division(a, b, False))
    m("_ld", self.load); m("_st", self.store); m("_padd", self.padd); m("_pdiff", self.pdiff)
    m("_string", self.string); m("_bytes", self.bytes); m("_size", self.size); m("_data", self.data); m("_at", self.at); m("_bits", self.bits)
  def t(self, x): return self.itp.to_term(x, INT)
  def v(self, t):
    t = z3.simplify(t); return t.as_long() if z3.is_int_value(t) else Sym(t, INT)
  def wrap(self, x, b):
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x % 2**b
    t = self.t(x); r = self.range(t)
    if r is not None and r[0] >= 0 and r[1] < 2**b: return x
    return Sym(t, INT) if self.sure(z3.And(t >= 0, t < 2**b)) else Sym(t % 2**b, INT)
  def range(self, t):
    """bounds of a term, where its shape shows them"""
    if z3.is_int_value(t): return (t.as_long(),) * 2
    if t.get_id() in self.ranges: return self.ranges[t.get_id()][1]
    k = t.decl().kind() if z3.is_app(t) else None; rs = [self.range(x) for x in t.children()] if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_IDIV) or z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED) and t.decl().eq(MUL) else [None]
    if None in rs: return None
    if k == z3.Z3_OP_ADD: return sum(r[0] for r in rs), sum(r[1] for r in rs)
    if k == z3.Z3_OP_SUB: return rs[0][0] - sum(r[1] for r in rs[1:]), rs[0][1] - sum(r[0] for r in rs[1:])
    if k == z3.Z3_OP_IDIV: return (rs[0][0] // rs[1][0], rs[0][1] // rs[1][0]) if rs[1][0] == rs[1][1] > 0 else None
    lo, hi = rs[0]
    for c, d in rs[1:]: v = (lo * c, lo * d, hi * c, hi * d); lo, hi = min(v), max(v)
    return lo, hi
  def sure(self, g, ms=400): return self.itp.solver.quick([f for f, _ in self.itp.st.pc], g, ms)
  def byte(self, name, t):
    r = self.itp.fresh_const(name, z3.IntSort()); self.itp.assume(z3.And(r == t, r >= 0, r <= 255)); self.ranges[r.get_id()] = (r, (0, 255)); return Sym(r, INT)
  def signed(self, x, b):
    if isinstance(x, int): 
      self.itp.check("no signed overflow", -2**(b - 1) <= int(x) < 2**(b - 1)); return int(x)
    t = self.t(x); self.itp.check("no signed overflow", z3.And(t >= -2**(b - 1), t < 2**(b - 1))); return x
  def mul(self, a, b):
    if isinstance(a, int) or isinstance(b, int): return self.v(self.t(a) * self.t(b))
    a, b = self.t(a), self.t(b); self.product(a, b); return Sym(MUL(a, b), INT)
  def product(self, a, b):   # true of the product of all integers
    for x, y in ((a, b), (b, a)): self.itp.assume(z3.Implies(z3.And(x >= 0, y >= 0, y <= 255), z3.And(MUL(x, y) >= 0, MUL(x, y) <= 255 * x)))
    self.itp.assume(z3.And(MUL(a, b) == MUL(b, a), MUL(255 - a, b) == 255 * b - MUL(a, b), MUL(a, 255 - b) == 255 * a - MUL(a, b)))
  def division(self, a, b, quot):
    if isinstance(a, int) and isinstance(b, int) and b:
      q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1); return q if quot else a - b * q
    a, b = self.t(a), self.t(b); self.itp.check("no division by zero", b != 0)
    ra, rb = self.range(a), self.range(b)
    if ra is not None and rb is not None and ra[0] >= 0 and rb[0] > 0 or self.sure(z3.And(a >= 0, b > 0)): return self.v(a / b if quot else a % b)
    q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -(-a / b), -a / -b)); return self.v(q if quot else a - b * q)
  def bits(self, op, a, b):
    if isinstance(a, int) and isinstance(b, int): return {"<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()
    if isinstance(b, int):
      if op == "<<": return self.v(self.t(a) * 2**b)
      if op == ">>": return self.v(self.t(a) / 2**b)
      if op == "&" and (b & (b + 1)) == 0: return self.v(self.t(a) % (b + 1))
      if op == "&" and b >= 0:   # a mask of the upper bits of a 64 bit number
        low = (b & -b); 
        if b | (low - 1) == 2**64 - 1: return self.v(self.t(a) - self.t(a) % low)
    raise Unsupported("bit operation " + op)
  # ---- memory
  def pt(self, p):
    p = self.itp.deref(p)
    if not isinstance(p, tuple): p = self.itp.resolve(p)
    if isinstance(p, tuple): return self.t(p[0]), self.t(p[1])
    s = sort(PTR); return z3.simplify(s.accessor(0, 0)(p.t)), z3.simplify(s.accessor(0, 1)(p.t))
  def padd(self, p, i):
    b, o = self.pt(p); r = z3.simplify(o + self.t(i))
    self.itp.check("a pointer never leaves its block", z3.And(r >= 0, r <= self.extent(b))); return (self.v(b), self.v(r))
  def pdiff(self, p, q):
    (b, o), (c, u) = self.pt(p), self.pt(q); self.itp.check("only pointers into one block are compared", b == c); return self.v(o - u)
  def extent(self, b): return z3.If(b == -1, z3.IntVal(0) if self.size_out is None else self.size_out, self.LENI(b))
  def is_out(self, b):
    b = z3.simplify(b)
    if z3.is_int_value(b): return b.as_long() == -1
    return False if b.get_id() in self.inputs else self.itp.decide(b == -1)
  def load(self, p, i):
    b, o = self.pt(p); j = z3.simplify(o + self.t(i)); I = self.itp
    if self.is_out(b):
      I.check("only bytes of the result are read back", z3.And(j >= 0, j < self.size_out)); return self.byte("out_byte", z3.Select(I.st.ghost["out"], j))     # only bytes are ever written
    I.check("only bytes inside the given images are read", z3.And(b >= 0, b < self.n, j >= 0, j < self.LENI(b))); return self.byte("in_byte", self.IMG(b, j))
  def store(self, p, i, x):
    b, o = self.pt(p); j = z3.simplify(o + self.t(i)); I = self.itp; x = self.t(x)
    if not self.is_out(b): I.check("the given images are not written", False); return
    I.check("only bytes inside the result are written", z3.And(j >= 0, j < self.size_out))
    I.check("what is written is a byte", z3.And(x >= 0, x <= 255))
    I.st.ghost["out"] = z3.Store(I.st.ghost["out"], j, x)
  def string(self, n, c):
    I = self.itp; n = self.t(n)
    if self.size_out is not None: raise Unsupported("two strings")
    I.check("the result is no longer than a string can be", z3.And(n >= 0, n < 2**63)); I.assume(z3.And(n >= 0, n < 2**63))
    self.size_out = n; I.st.ghost["out"] = z3.K(z3.IntSort(), self.t(c)); return -1
  def bytes(self, s):
    if s != -1: raise Unsupported("bytes of another string")
    return s
  def size(self, s): return self.v(self.size_out) if s == -1 else Sym(self.LENI(self.t(s)), INT)
  def data(self, s): return (s, 0)
  def at(self, l, i):
    I = self.itp; c = I.content(I.deref(l)); n = self.t(M.length(I, l)); k = self.t(i)
    I.check("no element behind the last is taken", z3.And(k >= 0, k < n)); I.assume(z3.And(k >= 0, k < n))
    if not isinstance(c, ContC) or c.ty.args[0] not in (INT, PTR): return M.getitem(I, l, i)
    e = z3.Select(l_arr(c.ty, c.t), k)
    if c.ty.args[0] is INT: b, o = e, z3.IntVal(0)
    else: s = sort(PTR); b, o = s.accessor(0, 0)(e), s.accessor(0, 1)(e)
    if self.sure(z3.And(b == k, o == 0)): self.inputs[z3.simplify(k).get_id()] = k; e = self.v(k); return e if c.ty.args[0] is INT else (e, 0)
    return Sym(e, INT) if c.ty.args[0] is INT else (Sym(b, INT), Sym(o, INT))

def merging(front):
 def run(itp):
  setup(itp); I = z3.IntSort(); c = Cpp(itp); n = c.n = itp.fresh_const("images", I)
  itp.assume(z3.And(n >= 1, n < 2**60)); IL = LIST(INT)
  t = itp.fresh_const("given", sort(IL)); k, k1, b, j = z3.Ints("k!mg k1!mg b!mg j!mg")
  itp.assume(z3.And(l_len(IL, t) == n, M.mk_forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(l_arr(IL, t), j) == j), [[z3.Select(l_arr(IL, t), j)]])))
  IMG, LENI = c.IMG, c.LENI
  MINL = z3.Function("smallest", I, I); itp.assume(MINL(0) == 2**64 - 1)
  itp.assume(M.mk_forall([k, k1], z3.Implies(z3.And(k >= 0, k1 == k + 1), MINL(k1) == z3.If(LENI(k) < MINL(k), LENI(k), MINL(k))), [[MINL(k), MINL(k1)]]))
  itp.assume(M.mk_forall([k, j], z3.Implies(z3.And(0 <= j, j < k), MINL(k) <= LENI(j)), [[MINL(k), LENI(j)]]))     # by induction on k from the two above
  itp.assume(z3.And(MINL(n) <= LENI(0), MINL(n) >= 0))
  al, cols = (0, (1, 2, 3)) if front else (3, (0, 1, 2))
  BL = {x: z3.Function(f"blend_{x}", I, I, I) for x in cols}
  step = lambda a, x, y: (MUL(255 - a, x) + MUL(a, y)) / 255
  a, x, y = z3.Ints("a x y"); byte = lambda v: z3.And(v >= 0, v <= 255)
  itp.check("a byte blended with a byte is a byte", z3.ForAll([a, x, y], z3.Implies(z3.And(byte(a), byte(x), byte(y)), byte(((255 - a) * x + a * y) / 255))))
  for f in BL:
    B = BL[f]
    itp.assume(M.mk_forall([b], B(0, b) == 0, [[B(0, b)]]))
    itp.assume(M.mk_forall([k, k1, b], z3.Implies(z3.And(k >= 0, k1 == k + 1), B(k1, b) == step(IMG(k, b + al), B(k, b), IMG(k, b + f))), [[B(k, b), B(k1, b)]]))
    itp.assume(M.mk_forall([k, b], z3.Implies(k >= 0, byte(B(k, b))), [[B(k, b)]]))                                   # by induction from the lemma
  out = lambda: itp.st.ghost["out"]
  pixel = lambda kk, bb: z3.And(z3.Select(out(), bb + al) == 255, *[z3.Select(out(), bb + f) == BL[f](kk, bb) for f in cols])
  done = lambda kk: M.mk_forall([b], z3.Implies(z3.And(b % 4 == 0, 0 <= b, b + 4 <= kk), pixel(n, b)), [[BL[f](n, b)] for f in cols])
  rest = lambda kk: M.mk_forall([j], z3.Implies(j >= kk, z3.Select(out(), j) == 0), [[z3.Select(out(), j)]])
  def hint(lc):
    hs = []; ints = [kk for kk, _ in lc.local_keys(lambda t: t is INT)]; lists = [kk for kk, ty in lc.local_keys(lambda t: t.kind == "list" and t.args[0] is PTR)]
    T = lc.term
    fixed = [v.t for nm, v in itp.st.frames[lc.fid].items() if isinstance(v, Sym) and v.ty is INT and nm not in [kk[-1] if isinstance(kk, tuple) else kk for kk in ints]]
    for q in ints:
      hs.append((f"{q} not negative", lambda D, q=q: T(q) >= 0))
      hs.append((f"{q} within the images", lambda D, q=q: T(q) <= n))
      hs += [(f"{q} smallest of {p}", lambda D, q=q, p=p: T(q) == MINL(T(p))) for p in ints if p != q]
      for l in lists:
        s = sort(PTR); ty = LIST(PTR)
        hs.append((f"{l} as far as {q}", lambda D, q=q, l=l: l_len(ty, T(l)) == T(q)))
        hs.append((f"{l} points at the images", lambda D, l=l: M.mk_forall([j], z3.Implies(z3.And(0 <= j, j < l_len(ty, T(l))), z3.Select(l_arr(ty, T(l)), j) == s.constructor(0)(j, z3.IntVal(0))), [[z3.Select(l_arr(ty, T(l)), j)]])))
      if c.size_out is not None:
        fixed = [f for f in fixed if c.sure(f < c.size_out, 150)]
        if fixed:
          for f in fixed:
            hs += [(f"{q} images laid on {f}", lambda D, q=q, f=f: pixel(T(q), f)), (f"{f} done before", lambda D, f=f: done(f)), (f"{f} untouched behind", lambda D, f=f: rest(f + 4))]
          continue
        for m in (1, 4):
          e = lambda q=q, m=m: T(q) * m
          if m == 1: hs.append((f"{q} whole pixels", lambda D, e=e: e() % 4 == 0))
          hs += [(f"{q}*{m} within the result", lambda D, e=e: e() <= c.size_out), (f"{q}*{m} pixels done", lambda D, e=e: done(e())), (f"{q}*{m} rest untouched", lambda D, e=e: rest(e()))]
    return hs
  itp.loop_hints.append(hint)
  imgs = itp.new_cont("list", IL, t)
  st, r = attempt(itp, lambda: itp.call(itp.module_attr(itp.loader.module("cppmod"), FN), [imgs, front]))
  itp.check("merging never fails", st == "ok" and r == -1)
  if st != "ok": return
  small = MINL(n); p = itp.fresh_const("pixel", I)
  itp.check("the result has the whole pixels all images have", c.size_out == small - small % 4)
  itp.assume(z3.And(p % 4 == 0, 0 <= p, p + 4 <= c.size_out))
  for f in cols: itp.check("every colour byte is what laying the images over black in order gives", z3.Select(out(), p + f) == BL[f](n, p))
  itp.check("every pixel is opaque", z3.Select(out(), p + al) == 255)
 return run

SCENARIOS = [Scn("alpha first", merging(True), [FILE + ":" + FN], timeout=4000), Scn("alpha last", merging(False), [FILE + ":" + FN], timeout=4000)]
ASSUMPTIONS = ["at least one image, fewer than 2^60", "the compiled module is built from this source with the compiler's usual types (8, 16, 32, 64 bits, two's complement)"]
TRUSTED = ["clang's front end (the typed syntax tree that is translated)", "std::vector, std::string, std::string_view and pybind11's bytes as contracts"]
BOUNDED = []
