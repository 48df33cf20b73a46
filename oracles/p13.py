RULE = "groups of two to four topics, with and without priorities; one reader per topic, messages with small timestamps, pauses, resumes and slow processing are interleaved at random; whenever a wait ends, the positions of all topics as moved by the calls themselves decide whether it was allowed to end; the second part runs the same through real clients and a switch; a case is one history"
from svclib import *
from streamtasks.client.topic import *

class Seen:
  """positions as the calls move them"""
  def __init__(self, prio): self.pos, self.busy, self.prio, self.waiting = {}, set(), prio, {}
  def blockers(self, t, ts):
    b = [u for u, x in self.pos.items() if u != t and x < ts]
    if self.prio is not None: b += [u for u, x in self.pos.items() if u != t and x == ts and u in self.busy and self.prio.get(u, 0) > self.prio.get(t, 0)]
    return b

def group(rng, n):
  prio = None if rng.random() < 0.4 else {t: rng.randint(0, 2) for t in range(n) if rng.random() < 0.8}
  if prio is None: return SequentialInTopicSynchronizer(), None
  s = PrioritizedSequentialInTopicSynchronizer()
  for t, p in prio.items(): s.set_priority(t, p)
  return s, prio

async def direct(o, rng):
  n = rng.randint(2, 4); s, prio = group(rng, n); m = Seen(prio); hist = [("prio", prio)]; tasks = []
  scripts = {}
  for t in range(n):
    ts, sc = 0, []
    for _ in range(rng.randint(1, 6)):
      r = rng.random()
      if r < 0.12: sc.append(("pause",))
      elif r < 0.25: sc.append(("resume",))
      else: ts = max(0, ts + rng.choice([0, 1, 1, 2, 3, -1, -2])); sc.append(("msg", ts, rng.choice([0, 0, 1, 3])))
    scripts[t] = sc
  async def reader(t):
    for step in scripts[t]:
      for _ in range(rng.choice([0, 0, 1, 2, 5])): await asyncio.sleep(0)
      s.start_receive(t); m.busy.discard(t)
      hist.append((t,) + step)
      if step[0] == "pause": m.pos.pop(t, None); await s.set_paused(t, True)
      elif step[0] == "resume":
        if t not in m.pos: m.pos[t] = min(m.pos.values(), default=0)
        await s.set_paused(t, False)
      else:
        ts = step[1]; old = t in m.pos and ts < m.pos[t]
        if not old: m.pos[t] = ts; m.busy.add(t); m.waiting[t] = ts
        r = await s.wait_for(t, ts); m.waiting.pop(t, None)
        hist.append((t, "->", r))
        if not o.expect(r == (not old), "dropped" if old else "not-dropped", f"topic {t} at {m.pos.get(t)}: message at {ts} {'released' if r else 'dropped'}", hist): return
        if r:
          b = m.blockers(t, ts)
          o.expect(not b, "too-early" if any(m.pos[u] < ts for u in b) else "priority", f"topic {t} released its message at {ts} while topics {b} are at {m.pos}, busy {m.busy}, priorities {prio}", hist)
        for _ in range(step[2]): await asyncio.sleep(0)
    s.start_receive(t); m.busy.discard(t)
  tasks = [asyncio.ensure_future(reader(t)) for t in range(n)]
  await settle(120)
  for t, ts in list(m.waiting.items()):
    o.expect(bool(m.blockers(t, ts)), "held-back", f"topic {t} still waits at {ts} though nobody is in its way: {m.pos}, busy {m.busy}, priorities {prio}", hist)
  for t in tasks:
    if t.done() and not t.cancelled() and t.exception(): raise t.exception()
    t.cancel()
  await asyncio.gather(*tasks, return_exceptions=True)
  o.case(hist)

async def clients(o, rng):
  """released order through real topics: timestamps never go back, ties by priority"""
  n = rng.randint(2, 3); s, prio = group(rng, n)
  sw = Switch(); a, b = Client(await sw.add_local_connection()), Client(await sw.add_local_connection())
  a.start(); b.start()
  outs, ins, got, tasks, hist = [a.out_topic(t) for t in range(n)], [b.sync_in_topic(t, s) for t in range(n)], [], [], [("prio", prio)]
  m = Seen(prio)
  async def read(t):
    while True:
      r = await ins[t].recv_data_control()
      if isinstance(r, TopicControlData): got.append((t, "paused" if r.paused else "resumed"))
      else: got.append((t, r.data["timestamp"], r.data["v"]))
      for _ in range(rng.choice([0, 2, 6])): await asyncio.sleep(0)
  try:
    for x in outs: await x.start(); await x.set_registered(True)
    await settle()
    for x in ins: await x.start(); await x.set_registered(True)
    await settle()
    tasks = [asyncio.ensure_future(read(t)) for t in range(n)]
    # every topic becomes active
    for t in range(n): await outs[t].send(RawData({"timestamp": 1, "v": -1}))
    await settle(60)
    base = len(got); o.expect(base == n, "start", f"{got}", hist)
    paused, last, v = set(), {t: 1 for t in range(n)}, 0
    for _ in range(rng.randint(4, 12)):
      t = rng.randrange(n)
      if rng.random() < 0.15 and len(paused) < n - 1 and t not in paused:
        hist.append((t, "pause")); paused.add(t); await outs[t].set_paused(True); await settle(60); continue
      if t in paused: continue
      if rng.random() < 0.08: await outs[t].send(RawData({"v": "no time"})); hist.append((t, "no time")); continue
      ts = max(0, last[t] + rng.choice([0, 1, 1, 2, -1])); v += 1
      hist.append((t, ts, v)); last[t] = max(last[t], ts)
      await outs[t].send(RawData({"timestamp": ts, "v": v}))
      if rng.random() < 0.5: await settle(rng.randint(1, 30))
    await settle(150)
    rel = [g for g in got[base:] if not isinstance(g[1], str)]
    for t in range(n):
      x = [g[1] for g in rel if g[0] == t]
      o.expect(x == sorted(x), "own-order", f"topic {t} released {x}", hist)
    x = [g[1] for g in rel]
    o.expect(x == sorted(x), "group-order", f"released {rel}", hist)
    hi = {}
  finally:
    for t in tasks: t.cancel()
    await asyncio.gather(*tasks, return_exceptions=True)
    for x in outs + ins: await x.stop()
    for c in (a, b): await c.stop_wait()
    sw.stop_receiving(); await settle(2)
  o.case(hist)

def run(o):
  def d(o):
    async def main():
      for _ in o.loop(at_least=50): await direct(o, o.rng)
    asyncio.run(main())
  def c(o):
    async def main():
      for _ in o.loop(at_least=20): await clients(o, o.rng)
    asyncio.run(main())
  o.part("direct", d, 0.5)
  o.part("clients", c, 0.5)
