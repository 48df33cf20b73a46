RULE = "random messages of every kind encoded and decoded; random histories of reading, changing, updating, copying and encoding payloads compared with a plain deep-copied value; a case is one message or one history"
from netlib import *
import copy, struct

def value(rng, d=0):
  k = rng.randint(0, 9 if d < 3 else 6)
  if k == 0: return rng.choice([0, 1, -1, 127, 128, 255, 256, -32, -33, 2**31, 2**32, 2**63, 2**64 - 1, -2**63])
  if k == 1: return rng.choice([0.0, -1.5, 1e300, float("inf"), 0.1])
  if k == 2: return rng.choice([True, False])
  if k == 3: return rng.choice(["", "a", "äöü", "x" * 40, "\0"])
  if k == 4: return rng.choice([b"", b"\x00\xff", b"x" * 300])
  if k == 5: return rng.randint(-10**6, 10**6)
  if k == 6: return "s%d" % rng.randint(0, 99)
  if k == 7: return [value(rng, d + 1) for _ in range(rng.randint(0, 4))]
  ks = ["timestamp", "data", "a", "b", "_id", 1, 0, -5, "topic"]
  return {rng.choice(ks): value(rng, d + 1) for _ in range(rng.randint(0, 4))}
def top(rng):
  while True:
    v = value(rng)
    if not isinstance(v, (bytes, bytearray, memoryview)): return v
def mutable(rng):
  v = top(rng)
  return v if isinstance(v, (dict, list)) else {"v": v}
def change(key, v, x):
  if isinstance(v, dict): v[key] = x
  else: v.append(x)
def eq(a, b): return type(a) is type(b) and (a == b) if not isinstance(a, (list, dict)) else \
  (isinstance(b, list) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b)) if isinstance(a, list) else isinstance(b, dict) and a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a))

def message(rng):
  i = lambda: rng.choice([0, 1, 5, 2**31, 2**40, rng.randint(0, 10**6)])
  ids = lambda: {i() for _ in range(rng.randint(0, 5))}
  pids = lambda: {PricedId(i(), i()) for _ in range(rng.randint(0, 5))}
  return rng.choice([lambda: TopicDataMessage(i(), RawData(top(rng))), lambda: AddressedMessage(i(), i(), RawData(top(rng))), lambda: TopicControlMessage(i(), rng.random() < 0.5),
    lambda: InTopicsChangedMessage(ids(), ids()), lambda: OutTopicsChangedMessage(pids(), ids()), lambda: AddressesChangedMessage(pids(), ids())])()

def codec(o):
  from streamtasks.net.serialization import serialize_message, deserialize_message
  rng = o.rng
  for _ in o.loop(at_least=200):
    m = message(rng)
    kind = type(m).__name__
    state = rng.randint(0, 2)
    want = copy.deepcopy(m.data.data) if hasattr(m, "data") else None
    if hasattr(m, "data"):
      if state == 1: m.data.serialize()
      if state == 2: m = type(m)(**{**m.__dict__, "data": m.data.copy()})
    o.case((kind, repr(want)[:50]))
    try: raw = serialize_message(m); g = deserialize_message(raw if rng.random() < 0.5 else memoryview(raw))
    except Exception as e: o.violate(f"{kind}-fails", repr(e), repr((m, want))); continue
    o.expect(type(g) is type(m), f"{kind}-kind", f"decoded as {type(g).__name__}", repr(m))
    if type(g) is not type(m): continue
    for f in m.__dict__:
      if f == "data":
        try: got, own = g.data.data, m.data.data
        except Exception as e: o.violate(f"{kind}-payload-fails", repr(e), repr(want)); continue
        o.expect(eq(got, want), f"{kind}-payload", f"{got!r} instead of {want!r}", repr(want))
        o.expect(eq(own, want), f"{kind}-original", f"the original now holds {own!r} instead of {want!r}", repr(want))
      else: o.expect(type(getattr(g, f)) is type(getattr(m, f)) and getattr(g, f) == getattr(m, f), f"{kind}-{f}", f"{getattr(g, f)!r} instead of {getattr(m, f)!r}", repr(m))

def history(o):
  import msgpack
  rng = o.rng
  for _ in o.loop(at_least=200):
    v = mutable(rng)
    hist = [("value", copy.deepcopy(v))]
    ps = [[RawData(copy.deepcopy(v)) if rng.random() < 0.6 else RawData(rng.choice([bytes, bytearray, memoryview])(msgpack.packb(v))), copy.deepcopy(v)]]
    try:
      for _ in range(rng.randint(1, 8)):
        k = rng.randint(0, 5); i = rng.randrange(len(ps)); p, w = ps[i]
        if k == 0: hist.append(("read", i)); p.data
        elif k == 1: hist.append(("serialize", i)); p.serialize()
        elif k == 2: hist.append(("update", i)); p.update()
        elif k == 3:
          x = value(rng, 2); hist.append(("change+update", i, x)); key = rng.choice(["new", "a", 1])
          change(key, p.data, copy.deepcopy(x)); p.update(); change(key, ps[i][1], copy.deepcopy(x))
        elif k == 4:
          x = value(rng, 2); hist.append(("update+change", i, x)); key = rng.choice(["new", "a", 1])
          p.update(); change(key, p.data, copy.deepcopy(x)); change(key, ps[i][1], copy.deepcopy(x))
        else: hist.append(("copy", i)); ps.append([p.copy(), copy.deepcopy(w)])
        for j in rng.sample(range(len(ps)), len(ps)):
          if rng.random() < 0.5: continue
          p, w = ps[j]
          if rng.random() < 0.5:
            o.expect(eq(msgpack.unpackb(p.serialize(), strict_map_key=False), w), "bytes", f"payload {j}: bytes {msgpack.unpackb(p.serialize(), strict_map_key=False)!r} instead of {w!r}", hist)
          else: o.expect(eq(p.data, w), "content", f"payload {j}: content {p.data!r} instead of {w!r}", hist)
      for j, (p, w) in enumerate(ps):
        o.expect(eq(p.data, w), "content", f"payload {j}: content {p.data!r} instead of {w!r}", hist)
        o.expect(eq(msgpack.unpackb(p.serialize(), strict_map_key=False), w), "bytes", f"payload {j}: bytes differ from {w!r}", hist)
    except Exception as e:
      if isinstance(e, Exception) and type(e).__name__ == "Stop": raise
      o.violate("payload-fails", repr(e), hist)
    o.case(hist)

def run(o):
  o.part("messages through the codec", codec, 0.5)
  o.part("payload histories", history, 0.5)
