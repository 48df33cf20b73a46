RULE = "packets with random data, flags, presentation and decoding times (missing, zero, negative, far beyond 2^53) in random time bases are converted to media packets, changed, and back; the times are compared as exact fractions; a case is one packet"
from fractions import Fraction
import av, math
from lib import attempt
from streamtasks.media.packet import MediaPacket

def base(rng): return rng.choice([Fraction(1, 1000), Fraction(1, 48000), Fraction(1, 90000), Fraction(1001, 30000), Fraction(1, 30), Fraction(1, 49), Fraction(1, 1), Fraction(rng.randint(1, 1000), rng.randint(1, 100000))])
def when(rng): return rng.choice([0, 1, -1, 49, 48000, rng.randint(-1000, 1000), rng.randint(-10**9, 10**9), rng.randint(2**53, 2**55), 2**53 + 1])
def run(o):
  for _ in o.loop(at_least=300):
    rng = o.rng
    src = base(rng); dst = src if rng.random() < 0.4 else base(rng)
    pts = when(rng); dts = rng.choice([None, 0, pts, pts - rng.randint(0, 100), pts + rng.randint(0, 100), when(rng)])
    p = av.Packet(bytes(rng.randrange(256) for _ in range(rng.randint(1, 6))))
    if rng.random() < 0.06: which = rng.choice(["pts", "time_base"])
    else: which = None
    if which != "pts": p.pts = pts
    if dts is not None: p.dts = dts
    if which != "time_base": p.time_base = src
    p.is_keyframe = rng.random() < 0.5
    inp = dict(pts=pts, dts=dts, source=str(src), target=str(dst), missing=which)
    o.case(inp)
    st, m = attempt(lambda: MediaPacket.from_av_packet(p, dst))
    if which: o.expect(st != "ok" and isinstance(m, ValueError), "refuse", f"packet without {which} gives {m!r}", inp); continue
    if st != "ok": o.violate("from", f"raises {m!r}", inp); continue
    f = src / dst
    def near(got, want, key, what): 
      want = Fraction(want) * f
      o.expect(isinstance(got, int) and abs(got - want) < 1 and (want.denominator != 1 or got == want), key, f"{what} {float(want)} ({want}) arrives as {got!r}", inp)
    near(m.pts, pts, "pts", "presentation time")
    near(m.pts - m.dts, 0 if dts is None else pts - dts, "dts", "distance of the decoding time")
    o.expect(m.dts == m.pts - m.rel_dts, "offset", f"dts {m.dts} pts {m.pts} offset {m.rel_dts}", inp)
    o.expect(m.data == bytes(p) and m.is_keyframe == p.is_keyframe, "data", f"{m} from {p}", inp)
    k = m.rel_dts
    if rng.random() < 0.3: m.dts = d = when(rng); o.expect(m.dts == d and m.rel_dts == k, "set", f"dts set to {d} is {m.dts}, offset {k} is {m.rel_dts}", inp)
    if abs(m.pts) > 2**60 or abs(m.dts) > 2**60: continue
    st, q = attempt(lambda: m.to_av_packet(dst))
    if st != "ok": o.violate("to", f"raises {q!r}", inp); continue
    o.expect((q.pts, q.dts, q.time_base, bytes(q), q.is_keyframe) == (m.pts, m.dts, dst, m.data, m.is_keyframe), "to", f"{m} becomes pts {q.pts} dts {q.dts} base {q.time_base} key {q.is_keyframe}", inp)
    st, r = attempt(lambda: MediaPacket.from_av_packet(q, dst))
    o.expect(st == "ok" and r == m, "round", f"{m} comes back as {r!r}", inp)
