"""P29: media packets keep their times. Codec packets by their attributes; time bases exact fractions, floats approximate them."""
from contracts.net import *

MP = "streamtasks.media.packet:MediaPacket"
ATTRS = ("pts", "dts", "time_base", "is_keyframe")

def packets(itp):
  itp.st.ghost["pk"] = {}
  def get(at):
    def f(itp_, s):
      d = itp.st.ghost["pk"].get(str(s.t))
      if d is None or at not in d: raise Unsupported("attribute of a packet")
      return d[at]
    return f
  def put(at):
    def f(itp_, s, v): itp.st.ghost["pk"] = {**itp.st.ghost["pk"], str(s.t): {**itp.st.ghost["pk"][str(s.t)], at: v}}
    return f
  for at in ATTRS: itp.attr_models[("packet", at)] = get(at); itp.attr_sets[("packet", at)] = put(at)
  itp.any_methods[("packet", "__bytes__")] = lambda itp_, s, a, k: itp.st.ghost["pk"][str(s.t)]["data"]
  itp.ext_models["av.Packet"] = lambda itp_, a, k: packet(itp, a[0])
  def approx(itp_, a, k):
    x = itp.resolve(a[0])
    if not isinstance(x, Sym): return float(x)
    y = itp.fresh("float", REAL); t = itp.to_term(x, REAL)
    itp.assume(z3.And((y.t - t) * 2**52 <= z3.If(t < 0, -t, t), (t - y.t) * 2**52 <= z3.If(t < 0, -t, t)))
    return y
  itp.ext_models["builtins.float"] = approx
  itp.ext_models["fractions.Fraction"] = lambda itp_, a, k: Sym(itp.to_term(a[0], REAL) / (itp.to_term(a[1], REAL) if len(a) > 1 else 1), REAL)
def packet(itp, data, **f):
  p = itp.fresh("packet", ANY("packet"))
  itp.st.ghost["pk"] = {**itp.st.ghost["pk"], str(p.t): {"data": data, "pts": None, "dts": None, "time_base": None, "is_keyframe": False, **f}}
  return p
def attrs(itp, p): return itp.st.ghost["pk"][str(p.t)]
def eq(itp, a, b): return itp.bz(itp.eq(a, b))
def is_pk(p): return isinstance(p, Sym) and p.ty == ANY("packet")
def base(itp, n):
  b = itp.fresh(n, REAL); itp.assume(b.t > 0); return b
def i(itp, x): return itp.to_term(x, INT)
def fld(itp, o, n): return itp.getattr(o, n)
def media(itp, data, pts, rel, key): return itp.call(itp.cls_by_qual(MP), [data, pts, rel, key])
def within(t, x):
  """the whole number t is x rounded to a whole tick, in whichever direction"""
  d = z3.ToReal(t) - x
  return z3.And(d < 1, d > -1)
def cls(itp): return itp.cls_by_qual(MP)

def s_times(itp):
  packets(itp)
  o = media(itp, itp.fresh("data", BYTES), itp.fresh("pts", INT), itp.fresh("offset", INT), itp.fresh("key", BOOL))
  def offset(what): itp.check(f"{what}: decoding time is presentation time minus the offset", i(itp, fld(itp, o, "dts")) == i(itp, fld(itp, o, "pts")) - i(itp, fld(itp, o, "rel_dts")))
  offset("any packet")
  old = {n: fld(itp, o, n) for n in ("data", "rel_dts", "is_keyframe")}
  d = itp.fresh("time", INT)
  if itp.choose(2): itp.setattr(o, "dts", d); itp.check("setting the decoding time sets it", i(itp, fld(itp, o, "dts")) == d.t)
  else: itp.setattr(o, "pts", d); itp.check("setting the presentation time sets it", i(itp, fld(itp, o, "pts")) == d.t)
  offset("after a change")
  itp.check("changing a time keeps everything else", z3.And(*[eq(itp, fld(itp, o, n), v) for n, v in old.items()]))

def s_to(itp):
  packets(itp)
  v = [itp.fresh("data", BYTES), itp.fresh("pts", INT), itp.fresh("offset", INT), itp.fresh("key", BOOL)]
  o = media(itp, *v)
  tb = None if itp.choose(2) else base(itp, "base")
  st, p = attempt(itp, lambda: itp.call(itp.getattr(o, "to_av_packet"), [tb]))
  itp.check("conversion succeeds", st == "ok" and is_pk(p))
  if st != "ok" or not is_pk(p): return
  a = attrs(itp, p)
  itp.check("data and key-frame flag", z3.And(eq(itp, a["data"], v[0]), eq(itp, a["is_keyframe"], v[3])))
  itp.check("presentation time", eq(itp, a["pts"], v[1]))
  itp.check("decoding time", z3.BoolVal(False) if a["dts"] is None else i(itp, a["dts"]) == v[1].t - v[2].t)
  itp.check("time base", a["time_base"] is tb if tb is None else eq(itp, a["time_base"], tb))
  itp.check("the packet converted stays as it was", z3.And(*[eq(itp, fld(itp, o, n), x) for n, x in zip(("data", "pts", "rel_dts", "is_keyframe"), v)]))

def s_from(mode, same):
  def s(itp):
    packets(itp)
    src = base(itp, "source_base"); dst = src if same else base(itp, "target_base")
    pts = itp.fresh("pts", INT); dts = None if mode == "missing" else 0 if mode == "zero" else itp.fresh("dts", INT)
    data, key = itp.fresh("data", BYTES), itp.fresh("key", BOOL)
    p = packet(itp, data, pts=pts, dts=dts, time_base=src, is_keyframe=key)
    st, o = attempt(itp, lambda: itp.call(itp.getattr(cls(itp), "from_av_packet"), [p, dst]))
    itp.check("conversion succeeds", st == "ok" and isinstance(o, ObjRef))
    if st != "ok": return
    itp.check("data and key-frame flag", z3.And(eq(itp, fld(itp, o, "data"), data), eq(itp, fld(itp, o, "is_keyframe"), key)))
    P, D = i(itp, fld(itp, o, "pts")), i(itp, fld(itp, o, "dts"))
    d = pts.t if dts is None else i(itp, dts)
    if same:
      one = src.t / src.t
      itp.assume(z3.And(one == 1, z3.ToReal(pts.t - d) * one == z3.ToReal(pts.t - d)))     # arithmetic, for the solver
      itp.check("presentation time is kept", P == pts.t)
      itp.check("decoding time is kept", D == d)
      return
    f = src.t / dst.t
    x, y = z3.ToReal(pts.t) * f, z3.ToReal(d) * f
    diff = z3.ToReal(pts.t - d) * f
    itp.assume(diff == x - y)       # distributivity, for the solver
    itp.check("presentation time is the same moment, to within a tick", within(P, x))
    itp.check("the decoding time is as far from it, to within a tick", within(P - D, diff))
    if dts is None: itp.check("a missing decoding time is the presentation time", D == P)
    n = itp.fresh_const("n", z3.IntSort())
    itp.check("a moment which is a whole tick is kept exactly", z3.Implies(z3.ToReal(n) == x, P == n))
    itp.check("likewise the distance of the decoding time", z3.Implies(z3.ToReal(n) == diff, P - D == n))
  return s
def s_refuse(itp):
  packets(itp)
  none = itp.choose(2)
  p = packet(itp, itp.fresh("data", BYTES), pts=None if none else itp.fresh("pts", INT), dts=itp.fresh("dts", INT), time_base=base(itp, "b") if none else None)
  st, o = attempt(itp, lambda: itp.call(itp.getattr(cls(itp), "from_av_packet"), [p, base(itp, "target")]))
  itp.check("a packet without a presentation time or a time base is refused with ValueError", st != "ok" and exc_is(itp, o, ValueError))

def s_round(itp):
  packets(itp)
  v = [itp.fresh("data", BYTES), itp.fresh("pts", INT), itp.fresh("offset", INT), itp.fresh("key", BOOL)]
  tb = base(itp, "base")
  st, o = attempt(itp, lambda: itp.call(itp.getattr(cls(itp), "from_av_packet"), [itp.call(itp.getattr(media(itp, *v), "to_av_packet"), [tb]), tb]))
  itp.check("there and back succeeds", st == "ok")
  if st == "ok": itp.check("there and back changes nothing", z3.And(*[eq(itp, fld(itp, o, n), x) for n, x in zip(("data", "pts", "rel_dts", "is_keyframe"), v)]))
F, TO, DT = MP + ".from_av_packet", MP + ".to_av_packet", MP + ".dts"
SCENARIOS = [Scn("times of a packet", s_times, [DT]), Scn("to a codec packet", s_to, [TO, DT])] + [Scn(f"from a codec packet, decoding time {m}, {'same' if same else 'another'} time base", s_from(m, same), [F, DT]) for m in ("missing", "zero", "given") for same in (True, False)] + [Scn("refusing", s_refuse, [F]), Scn("there and back", s_round, [F, TO, DT])]
ASSUMPTIONS = ["a codec packet keeps the attributes set on it (PyAV)", "fractions are exact; a float is its number to within one part in 2^52", "times fit 64 bits"]
