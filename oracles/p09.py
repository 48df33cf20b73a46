RULE = "random histories of one real client: overlapping registrations and releases (sets, and lists naming a topic twice, forced or not), address changes, receivers enabled and disabled (overlapping) and messages arriving; every announcement and every hand-over is compared with plain reference counts; a case is one history"
from netlib import *
from streamtasks.client import Client
from streamtasks.client.receiver import Receiver

class Rec(Receiver):
  def __init__(self, client, name): super().__init__(client); self.name, self.got = name, []
  def on_message(self, m): self.got.append(show(m))
  def __repr__(self): return self.name

def changes(m):
  add = set(m.add) if isinstance(m, InTopicsChangedMessage) else {x.id for x in m.add}
  return type(m).__name__, add, set(m.remove)

async def history(o, rng):
  l = FakeLink("link", 1, suspend=rng.choice([0, 0, 2]))
  c = Client(l); c.start()
  T = range(4); hist = []
  ref = {"in": {}, "out": {}}
  addr = None
  kinds = {"in": "InTopicsChangedMessage", "out": "OutTopicsChangedMessage"}
  expected, pend = [], []
  for _ in range(rng.randint(3, 14)):
    k = rng.choice(["reg", "reg", "unreg", "unreg", "addr"])
    if k == "addr":
      await asyncio.gather(*pend); pend.clear()
      new = rng.choice([None, 0, 1, 2]); hist.append(("address", new))
      await c.set_address(new)
      if new != addr: expected.append(("AddressesChangedMessage", {new} - {None}, {addr} - {None}))
      addr = new
      o.expect(c.address == addr, "address-kept", f"address is {c.address}, set to {addr}", hist)
      continue
    way, r = rng.choice(["in", "out"]), None
    r = ref[way]; force = k == "unreg" and rng.random() < 0.3
    ids = sorted(subset(rng, T, 0.5))
    dup = bool(ids) and rng.random() < 0.25
    if dup: ids = ids + [rng.choice(ids)]
    given = rng.choice([set, list, tuple])(ids) if not dup else list(ids)
    old = {i for i, n in r.items() if n > 0}
    for i in ids:
      if k == "reg": r[i] = r.get(i, 0) + 1
      elif force: r[i] = 0
      else: r[i] = max(0, r.get(i, 0) - 1)
    now = {i for i, n in r.items() if n > 0}
    hist.append((k, way, given, "force" if force else ""))
    if old != now: expected.append((kinds[way], now - old, old - now))
    fn = getattr(c, {"reg": "register", "unreg": "unregister"}[k] + f"_{way}_topics")
    t = asyncio.ensure_future(fn(given, force=True) if force else fn(given)); pend.append(t)
    if rng.random() < 0.6: await asyncio.gather(*pend); pend.clear()
    else: await asyncio.sleep(0)
  await asyncio.gather(*pend)
  got = [changes(m) for m in l.sent]
  o.expect(got == expected, "announcements", f"announced {got}, the users began and ended {expected}", hist)
  o.case(hist)

async def dispatch(o, rng):
  l = FakeLink("link", 1); c = Client(l); c.start()
  recs = [Rec(c, f"r{i}") for i in range(3)]
  active, tasks, hist, wanted, n = set(), [], [], {}, 0
  for _ in range(rng.randint(4, 12)):
    k = rng.choice(["start", "start", "stop", "topic", "want", "unwant", "overlap"])
    if k == "start" and len(active) < 3:
      r = rng.choice([x for x in recs if x not in active]); active.add(r); hist.append(("enable", r.name)); await c.enable_receiver(r)
    elif k == "stop" and active:
      r = rng.choice(sorted(active, key=str)); active.discard(r); hist.append(("disable", r.name)); await c.disable_receiver(r)
    elif k == "overlap" and active and len(active) < 3:
      r = rng.choice(sorted(active, key=str)); q = rng.choice([x for x in recs if x not in active])
      active.discard(r); active.add(q); hist.append(("disable while enabling", r.name, q.name))
      d = asyncio.ensure_future(c.disable_receiver(r))
      for _ in range(rng.randint(0, 2)): await asyncio.sleep(0)
      await c.enable_receiver(q); await d
    elif k == "want": t = rng.randrange(3); wanted[t] = wanted.get(t, 0) + 1; hist.append(("want", t)); await c.register_in_topics([t])
    elif k == "unwant": t = rng.randrange(3); wanted[t] = max(0, wanted.get(t, 0) - 1); hist.append(("unwant", t)); await c.unregister_in_topics([t])
    else: continue
    await settle(6)
    for t in range(3):
      n += 1
      m = rng.choice([lambda: TopicDataMessage(t, RawData(n)), lambda: TopicControlMessage(t, bool(n % 2))])()
      before = {r: len(r.got) for r in recs}
      had = bool(active)
      l.put(m); await settle(8)
      for r in recs:
        exp = [show(m)] if r in active and wanted.get(t, 0) > 0 else []
        o.expect(r.got[before[r]:] == exp if had else True, "handed-on", f"{r} (active: {r in active}, topic {t} wanted by {wanted.get(t, 0)}) got {len(r.got) - before[r]} messages instead of {len(exp)}", hist)
      if not had: # taken by nobody: drop it
        while not l.q.empty(): l.q.get_nowait()
    m = AddressedMessage(5, 1, RawData(0)); before = {r: len(r.got) for r in recs}
    if active:
      l.put(m); await settle(8)
      for r in recs: o.expect(r.got[before[r]:] == ([show(m)] if r in active else []), "handed-on-other", f"{r} (active: {r in active}) got {r.got[before[r]:]}", hist)
  for r in list(active): await c.disable_receiver(r)
  o.case(hist)

def run(o):
  def go(f):
    def h(o):
      async def main():
        for _ in o.loop(at_least=60): await f(o, o.rng)
      asyncio.run(main())
    return h
  o.part("registrations", go(history), 0.5)
  o.part("hand-over", go(dispatch), 0.5)
