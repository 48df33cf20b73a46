RULE = "random chunkers are given streams of buffers of random sizes, shapes and types with the timestamps of their first samples; a case is one stream"
import numpy as np
from lib import attempt
from streamtasks.media.util import AudioChunker, PaddedAudioChunker

def run(o):
  for _ in o.loop(at_least=300):
    rng = o.rng; size = rng.choice([1, 2, 3, 7, 16, 100, 441, 1024]); rate = rng.choice([1, 3, 999, 1000, 1001, 8000, 16000, 44100, 48000]); pad = rng.choice([0, 0, 1, 2, 5, 50]); padded = rng.random() < 0.5
    if not padded: pad = 0
    inp = [("PaddedAudioChunker" if padded else "AudioChunker"), size, rate, pad]
    st, c = attempt(lambda: PaddedAudioChunker(size, rate, pad) if padded else AudioChunker(size, rate))
    if not o.expect(st == "ok", "make", f"no chunker: {c!r}", inp): continue
    full = size + 2 * pad; dtype = rng.choice([np.float32, np.int16, np.int32]); t0 = rng.randint(-10**6, 10**13)
    came, out, seen = 0, 0, []
    stream = np.arange(1, 1 + 40 * max(size, 60), dtype=np.int64) % 30000
    for _ in range(rng.randint(1, 6)):
      n = rng.choice([0, 1, rng.randint(0, size), size, full, rng.randint(0, 3 * size), rng.randint(0, 12 * size), 2 * full + 1])
      if came + n > stream.size: break
      buf = stream[came:came + n].astype(dtype)
      if rng.random() < 0.3 and n % 2 == 0: buf = buf.reshape((-1, 2)) if rng.random() < 0.7 else buf.reshape((2, -1))
      if rng.random() < 0.2: t0 += rng.randint(-5, 500) # timestamps jump
      ts = t0 + came * 1000 // rate; inp.append((n, ts))
      def drive():
        for x, t in c.next(buf, ts): seen.append((np.array(x), t))
      before = len(seen); st, r = attempt(drive)
      if not o.expect(st == "ok", "raise", f"chunking raises {r!r}", inp): break
      bad = False
      for x, t in seen[before:]:
        want = stream[out:out + full].astype(dtype)
        bad = not o.expect(x.ndim == 1 and x.size == full, "size", f"a chunk of {x.shape} instead of {full} samples", inp) or not o.expect(x.dtype == dtype and np.array_equal(x, want), "samples", f"a chunk holds {x[:5]}.. instead of the samples from {out} on", inp)
        first = ts + (out + pad - came) * 1000 / rate
        o.expect(abs(t - first) <= 1 + 1e-6 * 0 and isinstance(t, int), "timestamp", f"a chunk starting at {first:.3f} has the timestamp {t}", inp)
        if padded and not bad:
          s = c.strip_padding(x); o.expect(np.array_equal(s, x[pad:pad + size]), "strip", f"stripping the padding of {pad} leaves {s.shape} instead of {size} samples", inp)
        out += size
      if bad: break
      came += n
      held = c.buffer if c.buffer is not None else np.array([], dtype=dtype)
      if not o.expect(np.array_equal(held, stream[out:came].astype(dtype)), "held", f"{held.size} samples stay buffered instead of those from {out} to {came}", inp): break
      o.expect(held.size <= full and c.buffer_size == held.size, "much", f"{held.size} samples stay buffered", inp)
    o.case(inp)
