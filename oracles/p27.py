RULE = "samples of random lengths are inserted at random times, early, late and overlapping, with and without stretching, and taken for random spans; a case is one history"
import numpy as np
from fractions import Fraction as F
from lib import attempt
from streamtasks.media.util import AudioSequencer

def run(o):
  for _ in o.loop(at_least=300):
    rng = o.rng; rate = rng.choice([1, 3, 7, 1000, 8000, 44100]); ratio = 1 if rng.random() < 0.75 else rng.choice([1.1, 1.5, 2]); keep = rng.choice([0, 0, 3]); ch = rng.randint(1, 3); dtype = rng.choice([np.float32, np.int16, np.int32])
    q = AudioSequencer(rate, ratio, keep); inp = [rate, ratio, keep, ch, str(np.dtype(dtype))]; exact = ratio == 1
    ref, start, count, known, ok = None, None, 0, False, True
    clock = F(rng.randint(-5, 10**6), rng.choice([1, 1000, 3])); tm = clock
    def near(): return rng.choice([F(0), F(0), F(0), F(rng.randint(-400, 400), 1000 * rate), F(rng.randint(-8, 8), rate), F(rng.randint(-40, 40), rate)])
    for _ in range(rng.randint(2, 12)):
      a = rng.random()
      if a < 0.5:
        n = rng.choice([0, 1, 3, 10, rng.randint(0, 20)]); end = clock if ref is None else start + F(len(ref), rate); t = rng.choice([tm, end]) + near()
        s = (np.arange(n * ch).reshape((n, ch)) + count * ch + 1).astype(dtype); count += n; inp.append(("insert", str(t), n)); tm = t + F(n, rate)
        st, r = attempt(lambda: q.insert(t, s))
        if not o.expect(st == "ok", "insert-raises", f"inserting raises {r!r}", inp): ok = False; break
        known = True
        if ref is None: ref, start = [tuple(x) for x in s], t
        else:
          late = (t - end) * rate; d = round(abs(late)) * (1 if late > 0 else -1)
          if exact or d == 0: ref += [(0,) * ch] * max(0, d) + [tuple(x) for x in s[max(0, -d):]]
          else:
            m = len(ref) + n + d; b = q._sample_buffer
            if not o.expect(b.ndim == 2 and b.shape[1] == ch and b.dtype == dtype and b.shape[0] in (m, max(len(ref), m)), "stretch", f"after inserting with stretching the buffer is {b.shape} {b.dtype} instead of {m}", inp): ok = False; break
            if n and len(ref): o.expect(m <= 0 or len(b) < 2 or tuple(b[0]) == tuple(np.array(ref[0]).astype(dtype)), "stretch-first", "stretching changed the first sample", inp)
            ref = [tuple(x) for x in b]
      elif a < 0.92:
        n = rng.choice([0, 1, 2, 5, rng.randint(0, 30)]); base = clock if ref is None else rng.choice([start, start, start + F(len(ref), rate)])
        t = base + near() + rng.choice([F(0), F(0), F(rng.randint(-60, 60), rate)]); inp.append(("pop", str(t), n))
        if ref is not None:
          m = attempt(lambda: q.get_max_samples(t)); off = int((t - start) * rate)
          o.expect(m == ("ok", max(0, len(ref) - off - keep)), "amount", f"{m} samples are said to be available, {len(ref)} held from {off}", inp)
        st, r = attempt(lambda: q.pop_start(t, n))
        if not o.expect(st == "ok", "pop-raises", f"taking {n} samples raises {r!r}", inp): ok = False; break
        if not o.expect(r.ndim == 2 and r.shape[0] == n, "number", f"{r.shape} samples taken instead of {n}", inp): ok = False; break
        if known: o.expect(r.shape[1] == ch and r.dtype == dtype, "kind", f"samples of {r.shape} {r.dtype} taken", inp)
        if ref is None: o.expect(not r.any(), "silence", "samples taken from nothing", inp); continue
        off = int((t - start) * rate)
        want = [ref[off + i] if 0 <= off + i < len(ref) else (0,) * ch for i in range(n)]
        if not o.expect([tuple(x) for x in r] == [tuple(x) for x in want], "samples", f"taken {r.tolist()[:8]} instead of {[tuple(map(int, x)) for x in want][:8]}", inp): ok = False; break
        gone = min(max(0, off + n), len(ref)); ref = ref[gone:]; start += F(gone, rate)
      else:
        force = rng.random() < 0.5; inp.append(("reset", force)); q.reset(force)
        if force or not ref: ref = start = None
      o.expect(q.started == (ref is not None), "started", f"started is {q.started}", inp)
      if ref is not None:
        if not o.expect(q.start_time == start and [tuple(x) for x in q._sample_buffer] == [tuple(x) for x in ref], "held", f"held from {q.start_time}: {q._sample_buffer.tolist()[:10]}, expected from {start}: {[tuple(map(int, x)) for x in ref][:10]}", inp): break
        o.expect(q.end_time == start + F(len(ref), rate), "end", "the end is not where the samples end", inp)
    o.case(inp)
