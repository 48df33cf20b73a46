"""P27: the audio sequencer.  Position i of the buffer is the time start + i / rate."""
from contracts.arrays import *

U = "streamtasks.media.util"; SQ = U + ":AudioSequencer"; DTYPE = ANY("dtype")
def trunc(x): return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
class Seq:
  def __init__(self, itp, held=True):
    setup(itp); self.itp = itp; X = self.X = Arrays(itp)
    itp.ext_models["fractions.Fraction"] = lambda i, a, k: Sym(itp.to_term(a[0], REAL) / (itp.to_term(a[1], REAL) if len(a) > 1 else 1), REAL)
    itp.models["streamtasks.env:DEBUG_MIXER"] = lambda i, a, k: False
    self.rate, self.keep, self.ratio = itp.fresh_const("rate", z3.IntSort()), itp.fresh_const("keep", z3.IntSort()), itp.fresh_const("ratio", z3.RealSort())
    itp.assume(z3.And(self.rate >= 1, self.keep >= 0, self.ratio >= 1))
    self.o = itp.new_obj(itp.cls_by_qual(SQ), {})
    st, r = attempt(itp, lambda: itp.call(itp.getattr(self.o, "__init__"), [Sym(self.rate, INT), Sym(self.ratio, REAL), Sym(self.keep, INT)]))
    itp.check("a sequencer can be made", st == "ok")
    self.cols, self.dt = itp.fresh_const("channels", z3.IntSort()), itp.fresh_const("dtype", sort(DTYPE)); itp.assume(self.cols >= 1)
    self.held = held
    if held:
      # as any history leaves it: some samples were inserted, then some taken and more inserted
      first = self.samples("first")
      attempt(itp, lambda: itp.call(itp.getattr(self.o, "insert"), [itp.fresh("t0", REAL), first]))
      self.B = itp.fresh("buffer", AR); itp.assume(z3.And(X.COLS(self.B.t) == self.cols, X.DT(self.B.t) == self.dt))
      self.start = itp.fresh_const("start", z3.RealSort()); self.size = X.LEN(self.B.t)
      itp.setattr(self.o, "_sample_buffer", self.B); itp.setattr(self.o, "_buffer_start_time", Sym(self.start, REAL)); itp.setattr(self.o, "_desync_time", itp.fresh("desync", REAL))
  def samples(self, n):
    s = self.itp.fresh(n, AR); self.itp.assume(z3.And(self.X.COLS(s.t) == self.cols, self.X.DT(s.t) == self.dt)); return s
  def buffer(self): return self.itp.resolve(self.itp.getattr(self.o, "_sample_buffer"))
  def now(self): return self.itp.to_term(self.itp.getattr(self.o, "_buffer_start_time"), REAL)
  def kind(self, a): return z3.And(self.X.COLS(a.t) == self.cols, self.X.DT(a.t) == self.dt)
  def index(self, n, name="x"):
    x = self.itp.fresh_const(name, z3.IntSort()); self.itp.assume(z3.And(0 <= x, x < n)); return x

def s_pop(itp):
  q = Seq(itp); X = q.X; t = itp.fresh("time", REAL); n = itp.fresh("count", INT); itp.assume(n.t >= 0)
  st, r = attempt(itp, lambda: itp.call(itp.getattr(q.o, "pop_start"), [t, n]))
  itp.check("nothing raises, whatever the time", st == "ok")
  if st != "ok": return
  r = itp.resolve(r); off = trunc((t.t - q.start) * z3.ToReal(q.rate)); x = itp.fresh_const("x", z3.IntSort())
  itp.check("exactly the requested number is returned", X.LEN(r.t) == n.t)
  itp.check("of the channels and type inserted", q.kind(r))
  p = off + x
  itp.check("each position holds the sample inserted for that time, or silence", z3.Implies(z3.And(0 <= x, x < n.t), X.AT(r.t, x) == z3.If(z3.And(0 <= p, p < q.size), X.AT(q.B.t, p), X.ZERO)))
  b = q.buffer(); gone = z3.If(off + n.t < 0, 0, z3.If(off + n.t > q.size, q.size, off + n.t))
  itp.check("the buffer starts right behind what was taken", z3.And(q.now() == q.start + z3.ToReal(gone) / z3.ToReal(q.rate), X.LEN(b.t) == q.size - gone))
  itp.check("and none after the span is lost", z3.Implies(z3.And(0 <= x, x < q.size - gone), X.AT(b.t, x) == X.AT(q.B.t, x + gone)))
  itp.check("what is kept is of the same kind", q.kind(b))
def s_pop_nothing(itp):
  q = Seq(itp, False); X = q.X; known = itp.choose(2)
  if known:
    s = q.samples("first"); attempt(itp, lambda: itp.call(itp.getattr(q.o, "insert"), [itp.fresh("t0", REAL), s])); itp.call(itp.getattr(q.o, "reset"), [True])
    itp.check("after a reset nothing is held", itp.getattr(q.o, "_sample_buffer") is None and itp.getattr(q.o, "started") is False)
  n = itp.fresh("count", INT); itp.assume(n.t >= 0)
  st, r = attempt(itp, lambda: itp.call(itp.getattr(q.o, "pop_start"), [itp.fresh("time", REAL), n]))
  itp.check("nothing raises where nothing is held", st == "ok")
  if st != "ok": return
  r = itp.resolve(r); x = q.index(n.t)
  itp.check("the requested number of silent samples is returned", z3.And(X.LEN(r.t) == n.t, X.AT(r.t, x) == X.ZERO))
  if known: itp.check("of the kind inserted last", q.kind(r))
def s_insert(itp):
  q = Seq(itp); X = q.X; t = itp.fresh("time", REAL); s = q.samples("samples"); n = X.LEN(s.t); stretched = []
  def stretch(i, a, k):
    ln = itp.to_term(a[1], INT); itp.check("it is not stretched to nothing", ln >= 0)
    b = q.buffer(); r = itp.fresh("stretched", AR); itp.assume(z3.And(X.LEN(r.t) == ln, X.COLS(r.t) == X.COLS(b.t), X.DT(r.t) == X.DT(b.t)))
    stretched.append(1); itp.setattr(a[0], "_sample_buffer", r)
  itp.models[SQ + "._strech_sample_buffer"] = stretch
  st, r = attempt(itp, lambda: itp.call(itp.getattr(q.o, "insert"), [t, s]))
  itp.check("inserting never fails", st == "ok")
  if st != "ok": return
  late = (t.t - q.start) * z3.ToReal(q.rate) - z3.ToReal(q.size); a = z3.If(late < 0, -late, late)
  fl = z3.ToInt(a); fr = a - z3.ToReal(fl); rnd = z3.If(fr < z3.RealVal("1/2"), fl, z3.If(fr > z3.RealVal("1/2"), fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))); d = z3.If(late < 0, -rnd, rnd)
  b = q.buffer(); x = itp.fresh_const("x", z3.IntSort())
  itp.check("the buffer starts where it did, with samples of the same kind", z3.And(q.now() == q.start, q.kind(b)))
  if stretched:
    itp.check("what is stretched ends where the inserted samples end", X.LEN(b.t) == q.size + d + n)
    itp.check("stretching happens only if it is allowed", z3.Not(q.ratio == 1)); return
  end = z3.If(d + n < 0, q.size, q.size + d + n)
  itp.check("the buffer ends where the inserted samples end, or where it did", X.LEN(b.t) == end)
  itp.check("samples held stay where they are", z3.Implies(z3.And(0 <= x, x < q.size), X.AT(b.t, x) == X.AT(q.B.t, x)))
  itp.check("each inserted sample behind them is where its time says, with silence before it", z3.Implies(z3.And(q.size <= x, x < end), X.AT(b.t, x) == z3.If(x < q.size + d, X.ZERO, X.AT(s.t, x - q.size - d))))
def s_first(itp):
  q = Seq(itp, False); X = q.X; t = itp.fresh("time", REAL); s = q.samples("samples"); n = X.LEN(s.t)
  if itp.choose(2):
    attempt(itp, lambda: itp.call(itp.getattr(q.o, "insert"), [itp.fresh("t0", REAL), q.samples("first")])); itp.call(itp.getattr(q.o, "reset"), [True])
  st, r = attempt(itp, lambda: itp.call(itp.getattr(q.o, "insert"), [t, s]))
  itp.check("inserting never fails", st == "ok")
  if st != "ok": return
  b = q.buffer(); x = q.index(n)
  itp.check("the first samples start the buffer, at their time", z3.And(q.now() == t.t, X.LEN(b.t) == n, X.AT(b.t, x) == X.AT(s.t, x), q.kind(b)))
def s_amount(itp):
  q = Seq(itp); X = q.X; t = itp.fresh("time", REAL)
  st, r = attempt(itp, lambda: itp.call(itp.getattr(q.o, "get_max_samples"), [t]))
  itp.check("the number of samples available is always known", st == "ok")
  if st != "ok": return
  v = itp.to_term(r, INT); off = trunc((t.t - q.start) * z3.ToReal(q.rate))
  itp.check("what may be taken is held, but for what is to be kept", z3.And(v >= 0, z3.Or(v == 0, v == q.size - off - q.keep)))
  itp.check("the buffer's end is where its last sample ends", itp.to_term(itp.getattr(q.o, "end_time"), REAL) == q.start + z3.ToReal(q.size) / z3.ToReal(q.rate))
  itp.check("its start is the time of its first sample", itp.to_term(itp.getattr(q.o, "start_time"), REAL) == q.start)
def s_reset(itp):
  q = Seq(itp); X = q.X
  st, r = attempt(itp, lambda: itp.call(itp.getattr(q.o, "reset"), []))
  itp.check("resetting never fails", st == "ok")
  b = q.buffer()
  if b is None: itp.check("unforced, only an empty buffer is dropped", q.size == 0); itp.check("with its time", itp.getattr(q.o, "_buffer_start_time") is None)
  else: itp.check("otherwise it stays", z3.And(b.t == q.B.t, q.now() == q.start))

SCENARIOS = [Scn("taking", s_pop, [SQ + ".pop_start", SQ + "._make_zeros", SQ + "._get_start_sample_offset"]), Scn("taking from nothing", s_pop_nothing, [SQ + ".pop_start", SQ + ".reset", SQ + ".started"]),
  Scn("inserting", s_insert, [SQ + ".insert"]), Scn("inserting first", s_first, [SQ + ".insert"]), Scn("amount available", s_amount, [SQ + ".get_max_samples", SQ + ".end_time"]), Scn("resetting", s_reset, [SQ + ".reset"])]
ASSUMPTIONS = ["the time is a fraction and the division that decides whether to stretch is exact", "all samples inserted between two resets have the same channels and type (asserted by insert)", "the rate is at least 1 and the requested number not negative"]
TRUSTED = ["numpy"]
BOUNDED = ["_strech_sample_buffer (numpy.interp) by random buffers: length, kind and the first and last sample"]
