RULE = "a real discovery service with clients requesting topics, addresses, topic spaces and ports concurrently, with counts of 0, 1, many and negative; every id ever handed out is remembered; a case is one history"
from svclib import *
from streamtasks.utils import IdGenerator

async def history(o, rng):
  async with network(2) as (w, cs):
    hist, topics, addrs, spaces, known = [], set(), {c.address for c in cs}, {}, {}
    o.expect(len(addrs) == len(cs), "address-unique", f"clients got {[c.address for c in cs]}", hist)
    def give(pool, ids, n, what, lo):
      o.expect(len(ids) == len(set(ids)) == n, what + "-count", f"{n} requested, got {ids}", hist)
      o.expect(not (set(ids) & pool), what + "-twice", f"{sorted(set(ids) & pool)} handed out again", hist)
      o.expect(all(i >= lo for i in ids), what + "-reserved", f"{ids} reaches the reserved ids below {lo}", hist)
      pool |= set(ids)
    async def one(c, alone=True):
      k = rng.choice(["topics", "topics", "addresses", "signal", "space", *(["lookup", "delete"] if alone else [])]); n = rng.choice([0, 1, 1, 2, 5, -1, -3])
      hist.append((k, n))
      if k == "topics":
        st, r = await ask(c.request_topic_ids(n))
        if n >= 0: o.expect(st == "ok", "topics-refused", f"{n} topics: {r!r}", hist)
        if st == "ok": give(topics, r, n if n >= 0 else len(r), "topics", 100000)
      elif k == "addresses":
        st, r = await ask(request_addresses(c, n))
        if st == "ok": give(addrs, list(r), n, "addresses", 10000)
        elif n >= 0: o.violate("addresses-refused", f"{n} addresses: {r!r}", hist)
      elif k == "signal":
        if n < 0: n = 1
        a, c._address = c._address, None
        try: st, r = await ask(request_addresses(c, n))
        finally: c._address = a
        if st == "ok": give(addrs, list(r), n, "addresses", 10000)
      elif k == "space":
        ids = {rng.randrange(50) for _ in range(abs(n))}
        st, r = await ask(register_topic_space(c, list(ids)))
        if o.expect(st == "ok", "space-refused", f"{ids}: {r!r}", hist):
          o.expect(r[0] not in spaces and r[0] not in known, "space-twice", f"space id {r[0]} given again", hist)
          o.expect(set(r[1]) == ids, "space-topics", f"space for {ids} maps {r[1]}", hist)
          give(topics, list(r[1].values()), len(ids), "space-topics", 100000)
          spaces[r[0]] = r[1]; known[r[0]] = 1
      elif k in ("lookup", "delete") and known:
        i = rng.choice(list(known))
        if k == "delete":
          if i not in spaces: return
          del spaces[i]; await ask(delete_topic_space(c, i))
        else:
          st, r = await ask(get_topic_space(c, i))
          o.expect((st == "ok" and r == spaces[i]) if i in spaces else st != "ok", "space-lookup", f"space {i}: {r!r} instead of {spaces.get(i)}", hist)
          if i in spaces and spaces[i]:
            t = rng.choice(list(spaces[i])); st, r = await ask(get_topic_space_translation(c, i, t))
            o.expect(st == "ok" and r == spaces[i][t], "space-translation", f"topic {t} of space {i}: {r!r} instead of {spaces[i][t]}", hist)
    for _ in range(rng.randint(3, 8)):
      if rng.random() < 0.4: await asyncio.gather(one(cs[0], False), one(cs[1], False))
      else: await one(rng.choice(cs))
    o.case(hist)

def generators(o):
  from streamtasks.client import Client as C
  for _ in o.loop(at_least=50):
    a, n = o.rng.randint(-3, 6), o.rng.randint(1, 6)
    g = IdGenerator(a, a + n); out = [g.next() for _ in range(3 * n + 1)]
    for i in range(len(out) - n + 1): o.expect(set(out[i:i + n]) == set(range(a, a + n)), "ports-reused", f"ids of {a}..{a + n - 1} come as {out}", (a, n))
    o.case((a, n))
  async def ports():
    c = C(FakeLink()); fixed = {v for k, v in vars(NetworkPorts).items() if isinstance(v, int) and k != "DYNAMIC_START"}
    out = [c.get_free_port() for _ in range(50)]
    o.expect(len(set(out)) == 50 and not set(out) & fixed, "ports-fixed", f"ports {out}", None)
  asyncio.run(ports())

def run(o):
  o.part("generators", generators, 0.05)
  def h(o):
    async def main():
      for _ in o.loop(at_least=10): await history(o, o.rng)
    asyncio.run(main())
  o.part("allocations", h, 0.95)
