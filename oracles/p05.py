RULE = "random switches with links that subscribe, provide, withdraw, join, leave and close while being written to (transports may suspend); after every event the subscriptions and announcements sent to each link are compared with a reference built from the messages alone; a case is one history"
from netlib import *

class Ref:
  """what the links want, offer and were asked for, from the messages that crossed them"""
  def __init__(self): self.wants, self.offers, self.asked, self.told, self.cost = {}, {}, {}, {}, {}
  def join(self, l): self.wants[l], self.offers[l], self.asked[l], self.told[l] = set(), {}, set(), {}
  def drop(self, l):
    for d in (self.wants, self.offers, self.asked, self.told): d.pop(l, None)
  def best(self):
    b = {}
    for l, t in self.offers.items():
      for i, c in t.items(): b[i] = min(b.get(i, c), c)
    return b

def absorb(ref, l, upto):
  """messages sent to l since the last look"""
  for m in l.sent[upto:]:
    if isinstance(m, InTopicsChangedMessage): ref.asked[l] = (ref.asked[l] | set(m.add)) - set(m.remove)
    elif isinstance(m, OutTopicsChangedMessage):
      for i in m.remove: ref.told[l].pop(i, None)
      for x in m.add: ref.told[l][x.id] = x.cost

async def scenario(o, rng):
  sw = Switch(); ref = Ref(); links, hist, seen = [], [], {}
  T = range(4)
  slow, racy = rng.random() < 0.5, ""   # racy: handlers of two links overlapped because a transport suspended
  def look():
    for l in links:
      if l in ref.asked: absorb(ref, l, seen.get(l, 0))
      seen[l] = len(l.sent)
  async def join():
    l = FakeLink(f"l{len(links)}", rng.randint(1, 3), suspend=rng.choice([0, 0, 1, 2]) if slow else 0)
    links.append(l); ref.join(l); await sw.add_link(l); await settle(); return l
  for _ in range(rng.randint(2, 4)): await join()
  look()
  for step in range(rng.randint(3, 10)):
    live = [l for l in links if l in ref.wants]
    k = rng.choice(["in", "in", "in", "out", "out", "out", "leave", "join", "inclose", "outclose"])
    if not live: k = "join"
    before = ref.best(); told0 = {l: dict(ref.told[l]) for l in live}; asked0 = {l: set(ref.asked[l]) for l in live}
    wants0 = set().union(*ref.wants.values()) if ref.wants else set()
    origin = None; touched = set(T)
    if k == "join":
      l = await join(); hist.append(("join", l.name)); origin = l; look()
      o.expect(ref.told[l] == before, "join-table", f"a new link was told {ref.told[l]} although the best prices are {before}", hist)
      ref.told[l] = dict(before)
    else:
      l = origin = rng.choice(live)
      victim = None
      if k.endswith("close") and len(live) > 1:
        victim = rng.choice([x for x in live if x is not l]); victim.close_at = len(victim.sent)
        hist.append(("closes when written to", victim.name))
      if k.startswith("in"):
        add = subset(rng, T, 0.45); m = InTopicsChangedMessage(add, subset(rng, set(T) - add, 0.4))
        ref.wants[l] = (ref.wants[l] | m.add) - m.remove; touched = m.add | m.remove
        hist.append((l.name, show(m))); l.put(m)
      elif k.startswith("out"):
        add = priced(rng, T, 0.45); m = OutTopicsChangedMessage(add, subset(rng, set(T) - {x.id for x in add}, 0.4))
        for i in m.remove: ref.offers[l].pop(i, None)
        for x in m.add: ref.offers[l][x.id] = x.cost + l.price
        touched = {x.id for x in m.add} | m.remove
        hist.append((l.name, show(m), "cost", l.price)); l.put(m)
      else:
        hist.append(("leave", l.name)); ref.drop(l); l.close()
      await settle(60)
      look()
      if victim is not None:
        if not victim.closed: victim.close_at = None
        else:
          await settle(60); look(); ref.drop(victim); look()
          hist.append(("closed", victim.name)); touched = set(T)
          if slow: racy = "-overlap"
    live = [l for l in links if l in ref.wants]
    gone = [l for l in links if l not in ref.wants and sw.link_manager.has_link(l)]
    o.expect(not gone, "not-removed", f"{gone} still in the switch", hist)
    best = ref.best(); wanted = set().union(*ref.wants.values()) if ref.wants else set()
    for t in T:
      asked = [l for l in live if t in ref.asked[l]]
      if t not in wanted:
        if asked: o.violate("asked-unwanted" + racy, f"topic {t} is wanted by nobody but asked from {asked}", hist)
      elif t in best:
        if len(asked) != 1: o.violate("asked-count" + racy, f"wanted topic {t} (best price {best[t]}) is asked from {asked}, offers {[(l.name, ref.offers[l].get(t)) for l in live]}", hist)
        elif ref.offers[asked[0]].get(t) != best[t]: o.violate("asked-expensive" + racy, f"topic {t} is asked from {asked[0]}, offers {[(l.name, ref.offers[l].get(t)) for l in live]}", hist)
      if t not in touched:
        for l in live:
          if l in asked0 and (t in asked0[l]) != (t in ref.asked[l]): o.violate("other-topic" + racy, f"the request for topic {t} changed although the event did not concern it", hist)
    for l in live:
      if l is origin or l not in told0 or k.endswith("close"): continue
      exp = {**told0[l]}
      for i in set(before) | set(best):
        if before.get(i) != best.get(i):
          if i in best: exp[i] = best[i]
          else: exp.pop(i, None)
      got = ref.told[l]
      if any(got.get(i) != exp.get(i) and not (before.get(i) == best.get(i) == got.get(i)) for i in T): o.violate("announced" + racy, f"{l} was told {got}, best prices went from {before} to {best}, before it knew {told0[l]}", hist)
    if origin in told0 and origin in ref.told and ref.told[origin] != told0[origin] and not k.endswith("close"): o.violate("announced-back" + racy, f"the change was announced back to {origin}", hist)
  o.case(hist)
  sw.stop_receiving(); await settle(3)

def tracker(o):
  from streamtasks.utils import IdTracker
  for _ in o.loop(at_least=100):
    tr, ref, hist = IdTracker(), {}, []
    for _ in range(o.rng.randint(1, 8)):
      ids = subset(o.rng, range(4), 0.5); op = o.rng.choice(["add", "add", "remove"])
      old = {i for i, c in ref.items() if c > 0}
      for i in ids: ref[i] = max(0, ref.get(i, 0) + (1 if op == "add" else -1))
      now = {i for i, c in ref.items() if c > 0}
      hist.append((op, sorted(ids)))
      got = set(tr.add_many(ids) if op == "add" else tr.remove_many(ids))
      o.expect(got == (now ^ old), "tracker-" + op, f"reported {got}, in use changed from {old} to {now}", hist)
      o.expect({i for i in range(4) if i in tr} == now, "tracker-in", f"in use {[i for i in range(4) if i in tr]} instead of {now}", hist)
    o.case(hist)

def run(o):
  o.part("usage counting", tracker, 0.1)
  def h(o):
    async def main():
      for _ in o.loop(at_least=80): await scenario(o, o.rng)
    import asyncio; asyncio.run(main())
  o.part("demand histories", h, 0.9)
