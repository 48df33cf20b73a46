"""P26: audio chunking.  G is the stream of samples that came in, by position; `a` how far it has been given out."""
from contracts.arrays import *

U = "streamtasks.media.util"
def chunking(cls, padded):
  def run(itp):
    setup(itp); X = Arrays(itp); I = lambda n: itp.fresh_const(n, z3.IntSort())
    G = z3.Function("stream", z3.IntSort(), sort(EL)); size, rate, pad = I("chunk_size"), I("sample_rate"), I("padding")
    itp.assume(z3.And(size >= 1, rate >= 1, pad >= 0))
    f = {"chunk_size": Sym(size, INT), "sample_rate": Sym(rate, INT)}
    o = itp.new_obj(itp.cls_by_qual(f"{U}:{cls}"), {})
    st, r = attempt(itp, lambda: itp.call(itp.getattr(o, "__init__"), [Sym(size, INT), Sym(rate, INT)] + ([Sym(pad, INT)] if padded else [])))
    itp.check("a chunker can be made for every size", st == "ok")
    full = size + 2 * pad if padded else size
    a0, b = I("given_out"), I("came_in"); itp.assume(z3.And(0 <= a0, a0 <= b))
    if itp.choose(2) == 0: itp.assume(z3.And(a0 == 0, b == 0)); itp.check("a new chunker holds nothing", itp.getattr(o, "buffer") is None)
    else:
      itp.assume(b - a0 <= full)
      itp.setattr(o, "buffer", X.fresh("held", b - a0, lambda j: G(a0 + j)))
    # a0: position of the first sample held; chunks cover [a, a + full), the next one starts size later
    buf = itp.fresh("buf", AR); n = X.LEN(buf.t); kept = itp.resolve(itp.getattr(o, "buffer"))
    if kept is not None: itp.assume(z3.And(X.COLS(kept.t) == X.COLS(buf.t), X.DT(kept.t) == X.DT(buf.t)))
    n = X.LEN(buf.t); ts = I("timestamp"); j = z3.Int("j!nx")
    itp.assume(M.mk_forall([j], z3.Implies(z3.And(0 <= j, j < n), X.AT(buf.t, j) == G(b + j)), [[X.AT(buf.t, j)]]))
    G_ = itp.st.ghost; G_["a"] = a0
    def hint(lc):
      a = lambda: G_["a"] if False else itp.st.ghost["a"]
      out = [("given out so far", lambda D: a() >= a0)]
      def held(D):
        v = itp.getattr(o, "buffer"); v = itp.resolve(v)
        if not (isinstance(v, Sym) and v.ty is AR): return z3.BoolVal(False)
        x = z3.Int("x!hd")
        return z3.And(X.LEN(v.t) == b + n - a(), M.mk_forall([x], z3.Implies(z3.And(0 <= x, x < b + n - a()), X.AT(v.t, x) == G(a() + x)), [[X.AT(v.t, x)]]))
      out.append(("held is the stream behind what was given out", held))
      for k, _ in lc.local_keys(lambda t: t is INT):
        out += [(f"{k} behind", lambda D, k=k: lc.term(k) == b - a()), (f"{k} ahead", lambda D, k=k: lc.term(k) == a() - b), (f"{k} given", lambda D, k=k: lc.term(k) == a() - a0)]
        if padded: out += [(f"{k} behind core", lambda D, k=k: lc.term(k) == b - a() - pad), (f"{k} ahead core", lambda D, k=k: lc.term(k) == a() + pad - b)]
      return out
    itp.loop_hints.append(hint)
    def got(i, v):
      v = itp.resolve(v); a = itp.st.ghost["a"]
      if not isinstance(v, tuple) or len(v) != 2: itp.check("chunks come with a timestamp", False); return None
      c, t = itp.resolve(v[0]), itp.to_term(v[1], INT); x = itp.fresh_const("x", z3.IntSort()); itp.assume(z3.And(0 <= x, x < full))
      itp.check("every chunk has the configured size", X.LEN(c.t) == full)
      itp.check("and holds the samples right behind those given out before", X.AT(c.t, x) == G(a + x))
      d = (a + pad - b) if padded else a - b      # offset of its first sample from that of the buffer given
      itp.check("its timestamp is that of its first sample, to within rounding", z3.And(rate * (t - ts) < d * 1000 + rate, d * 1000 - rate < rate * (t - ts)))
      itp.st.ghost["a"] = a + size
      return None
    g = itp.call(itp.getattr(o, "next"), [buf, Sym(ts, INT)])
    def drive():
      itp.with_yield = itp.with_yield + [got]
      try: return itp.run_fn(g.fn, g.args, g.kwargs)
      finally: itp.with_yield = itp.with_yield[:-1]
    st, r = attempt(itp, drive)
    itp.check("chunking never fails", st == "ok")
    if st != "ok": return
    a = itp.st.ghost["a"]; v = itp.resolve(itp.getattr(o, "buffer")); x = I("x")
    itp.assume(z3.And(0 <= x, x < b + n - a))
    itp.check("what stays buffered is all that was not given out", z3.And(X.LEN(v.t) == b + n - a, X.AT(v.t, x) == G(a + x)))
    itp.check("which is no more than one chunk", X.LEN(v.t) <= full)
  return run
def s_strip(itp):
  setup(itp); X = Arrays(itp); size, pad = itp.fresh_const("chunk_size", z3.IntSort()), itp.fresh_const("padding", z3.IntSort()); itp.assume(z3.And(size >= 1, pad >= 0))
  o = itp.new_obj(itp.cls_by_qual(U + ":PaddedAudioChunker"), {})
  attempt(itp, lambda: itp.call(itp.getattr(o, "__init__"), [Sym(size, INT), 16000, Sym(pad, INT)]))
  buf = itp.fresh("chunk", AR); itp.assume(X.LEN(buf.t) == size + 2 * pad)
  st, r = attempt(itp, lambda: itp.call(itp.getattr(o, "strip_padding"), [buf]))
  itp.check("stripping never fails", st == "ok")
  if st != "ok": return
  x = itp.fresh_const("x", z3.IntSort()); itp.assume(z3.And(0 <= x, x < size)); r = itp.resolve(r)
  itp.check("without its padding a chunk has its own samples", z3.And(X.LEN(r.t) == size, X.AT(r.t, x) == X.AT(buf.t, pad + x)))

SCENARIOS = [Scn("chunks", chunking("AudioChunker", False), [U + ":AudioChunker.next", U + ":AudioChunker.__init__"]),
  Scn("padded chunks", chunking("PaddedAudioChunker", True), [U + ":PaddedAudioChunker.next", U + ":PaddedAudioChunker.__init__"]), Scn("stripping the padding", s_strip, [U + ":PaddedAudioChunker.strip_padding"])]
ASSUMPTIONS = ["the generator of chunks is run to its end before the next buffer is given, and a chunk is not changed by whoever gets it", "chunk size and rate are at least 1, the padding is not negative"]
