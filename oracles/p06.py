RULE = "random one-to-one mappings and messages of every kind through a remapping link over a queue connection, compared with the same message translated by hand through a plain connection; a case is one message"
from netlib import *
from streamtasks.net import TopicRemappingLink, create_queue_connection

def mapping(rng):
  n = rng.randint(0, 5)
  ks, vs = rng.sample(range(6), n), rng.sample(range(100, 110) if rng.random() < 0.6 else range(6), n)
  m = dict(zip(ks, vs))
  return m if not (set(vs) - set(ks)) & set(range(6)) else None
def translate(m, f):
  g = lambda x: f.get(x, x)
  if isinstance(m, TopicDataMessage): return TopicDataMessage(g(m.topic), m.data)
  if isinstance(m, TopicControlMessage): return TopicControlMessage(g(m.topic), m.paused)
  if isinstance(m, InTopicsChangedMessage): return InTopicsChangedMessage({g(x) for x in m.add}, {g(x) for x in m.remove})
  if isinstance(m, OutTopicsChangedMessage): return OutTopicsChangedMessage({PricedId(g(x.id), x.cost) for x in m.add}, {g(x) for x in m.remove})
  if isinstance(m, OutTopicsChangedRecvMessage): return OutTopicsChangedRecvMessage({PricedId(g(x.id), x.cost) for x in m.add}, {PricedId(g(x.id), x.cost) for x in m.remove})
  return m
def message(rng, T):
  k = rng.randint(0, 5)
  if k == 0: return TopicDataMessage(rng.choice(T), RawData({"v": rng.randint(0, 99), "topic": rng.randint(0, 9)}))
  if k == 1: return TopicControlMessage(rng.choice(T), rng.random() < 0.5)
  if k == 2: return AddressedMessage(rng.choice(T), rng.randint(0, 9), RawData({"v": rng.randint(0, 99)}))
  if k == 3:
    a = subset(rng, T, 0.5); return InTopicsChangedMessage(a, subset(rng, set(T) - a, 0.5))
  if k == 4:
    a = priced(rng, T, 0.5); return OutTopicsChangedMessage(a, subset(rng, set(T) - {x.id for x in a}, 0.5))
  a = priced(rng, T, 0.5); return AddressesChangedMessage(a, subset(rng, set(T) - {x.id for x in a}, 0.5))

async def next_msg(l):
  try: return await asyncio.wait_for(l.recv(), 0.02)
  except asyncio.TimeoutError: return None

async def scenario(o, rng):
  m = None
  while m is None: m = mapping(rng)
  inv = {v: k for k, v in m.items()}
  a, b = create_queue_connection(rng.random() < 0.3); ra = TopicRemappingLink(a, m)
  pa, pb = create_queue_connection()
  hist = [m]
  ids = list(range(6))
  for _ in range(rng.randint(1, 5)):
    x = message(rng, ids); out = rng.random() < 0.5
    if not out and isinstance(x, InTopicsChangedMessage) and rng.random() < 0.5: continue
    hist.append(("out" if out else "in", show(x)))
    if out:
      await ra.send(x); await pa.send(translate(x, m)); got, want = await next_msg(b), await next_msg(pb)
    else:
      y = translate(x, m)   # what the other side says about the internal ids
      await b.send(y); await pb.send(y); got, want = await next_msg(ra), await next_msg(pa)
      if want is not None: want = translate(want, inv)
    key = f"{'out' if out else 'in'}-{type(x).__name__}"
    if want is None and got is None: pass
    elif want is None or got is None: o.violate(key, f"{got} instead of {want}", hist)
    else: o.expect(show(got) == show(want), key, f"{show(got)} instead of {show(want)}", hist)
    o.case((m, show(x)))
  for l in (a, b, pa, pb): l.close()

def run(o):
  def h(o):
    async def main():
      for _ in o.loop(at_least=150): await scenario(o, o.rng)
    asyncio.run(main())
  o.part("remapped connections", h, 1)
