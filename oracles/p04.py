RULE = "random switches with links announcing, withdrawing, joining and leaving (transports may suspend); an addressed message is compared with the links' recorded prices at that moment; a case is one history"
from netlib import *

async def scenario(o, rng):
  sw = Switch()
  links, hist = [], []
  async def join():
    l = FakeLink(f"l{len(links)}", rng.randint(1, 3), suspend=rng.choice([0, 0, 1, 3]))
    links.append(l); await sw.add_link(l); return l
  for _ in range(rng.randint(2, 4)): await join()
  A = range(3)
  for step in range(rng.randint(2, 8)):
    live = [l for l in links if not l.closed]
    k = rng.choice(["ann", "ann", "ann", "msg", "msg", "leave", "join"])
    if not live: k = "join"
    if k == "join": hist.append(("join", (await join()).name))
    elif k == "ann":
      l = rng.choice(live); m = AddressesChangedMessage(priced(rng, A, 0.5), subset(rng, A, 0.3))
      hist.append((l.name, show(m))); l.put(m); await settle()
    elif k == "leave":
      if len(live) < 2: continue
      l = rng.choice(live); hist.append(("leave", l.name, "during")); l.close()
      await settle(rng.choice([2, 3, 4, 5, 6, 40]))
    if k in ("msg", "leave"):
      live = [l for l in links if not l.closed]
      origin = rng.choice(live); a = rng.choice(list(A))
      for l in links: l.sent.clear()
      m = AddressedMessage(a, rng.randint(0, 9), RawData({"n": step}))
      offers = {l: l.addresses[a] for l in live if a in l.addresses}
      best = min(offers.values(), default=None)
      hist.append(("message", a, "from", origin.name, {l.name: c for l, c in offers.items()}))
      await sw.handle_message(m, origin)
      got = [(l, [x for x in l.sent if isinstance(x, AddressedMessage)]) for l in links]
      got = [(l, x) for l, x in got if x]
      if best is None: o.expect(not got, "route-unknown", f"sent over {got} although no link offers {a}", hist)
      else:
        ok = len(got) == 1 and len(got[0][1]) == 1 and offers.get(got[0][0]) == best
        o.expect(ok, "route" if k == "msg" else "route-while-removing", f"sent over {[(l.name, len(x)) for l, x in got]}, offers {[(l.name, c) for l, c in offers.items()]}", hist)
        if ok: o.expect(show(got[0][1][0]) == show(m), "route-content", f"{show(got[0][1][0])} instead of {show(m)}", hist)
      await settle(40)
  # a destination that has just closed does not disturb the sender
  live = [l for l in links if not l.closed]
  for d in live:
    for a in list(d.addresses):
      if all(l.addresses.get(a, 99) > d.addresses[a] for l in live if l is not d) and len(live) > 1:
        origin = next(l for l in live if l is not d)
        hist.append(("closing destination", d.name, a))
        d.close_at = 0
        d.sent.clear()
        origin.put(AddressedMessage(a, 1, RawData({"n": 1}))); await settle()
        o.expect(sw.link_manager.has_link(origin), "sender-disconnected", "the sender of an addressed message was disconnected", hist)
        o.case(hist); return
  o.case(hist)

def run(o):
  def h(o):
    async def main():
      for _ in o.loop(at_least=80): await scenario(o, o.rng)
    import asyncio; asyncio.run(main())
  o.part("routing histories", h, 1)
