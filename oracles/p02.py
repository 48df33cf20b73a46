RULE = "random histories of announcements crossing one real Link in both directions, the recorded view and what is handed on compared after every message with a reference; a case is one history"
from netlib import *
from lib import attempt, aattempt

async def history(o, rng):
  cost = rng.randint(1, 4)
  l = FakeLink("l", cost, suspend=rng.randint(0, 2))
  inn, rcv = set(), set()
  tab = {"o": {}, "a": {}}
  handed = {"o": {}, "a": {}}
  hist = []
  T = range(4)
  for _ in range(rng.randint(1, 10)):
    k = rng.choice(["in", "o", "a", "send", "sendo"])
    if k == "in":
      a, r = subset(rng, T), subset(rng, T)
      hist.append(("recv in", sorted(a), sorted(r)))
      new = (inn | a) - r
      want = None if new == inn else ("In", sorted(new - inn), sorted(inn - new))
      l.put(InTopicsChangedMessage(set(a), set(r)))
      if want is None:
        mark = TopicControlMessage(77, True); l.put(mark); want = show(mark)
      inn = new
    elif k in "oa":
      a, r = priced(rng, T, 0.4), subset(rng, T, 0.3)
      hist.append(("recv " + k, pd(a), sorted(r)))
      C, R = (OutTopicsChangedMessage, OutTopicsChangedRecvMessage) if k == "o" else (AddressesChangedMessage, AddressesChangedRecvMessage)
      l.put(C(set(a), set(r)))
      gone = {i: c for i, c in tab[k].items() if i in r or i in {x.id for x in a}}
      want = (R.__name__, sorted((x.id, x.cost + cost) for x in a), sorted(gone.items()))
      for i in r: tab[k].pop(i, None)
      for x in a: tab[k][x.id] = x.cost + cost
    else:
      a, r = subset(rng, T), subset(rng, T)
      if k == "send":
        hist.append(("send in", sorted(a), sorted(r)))
        m = InTopicsChangedMessage(set(a), set(r)); rcv = (rcv | a) - r
      else:
        m = rng.choice([OutTopicsChangedMessage, AddressesChangedMessage])(priced(rng, T), set(r)); hist.append(("send", show(m)))
      before = show(m); l.sent.clear()
      st, v = await aattempt(l.send(m))
      o.expect(st == "ok" and [show(x) for x in l.sent] == [before], "send", f"{before} crossed as {[show(x) for x in l.sent]} ({v!r})", hist)
    if k in ("in", "o", "a"):
      st, v = await aattempt(l.recv(), 2)
      got = show(v) if st == "ok" else repr(v)
      if not o.expect(st == "ok" and got == want, "recv-handed-on:" + k, f"handed on {got} instead of {want}", hist): return
    ok = o.expect(l.in_topics == inn and l.recv_topics == rcv and l.out_topics == tab["o"] and l.addresses == tab["a"], "view:" + k,
      f"recorded {l.in_topics, l.recv_topics, l.out_topics, l.addresses}, announced {inn, rcv, tab}", hist)
    if not ok: return
    o.expect(pd(l.get_priced_out_topics()) == sorted(tab["o"].items()) and pd(l.get_priced_addresses()) == sorted(tab["a"].items())
      and pd(l.get_priced_out_topics({1, 9})) == sorted((i, c) for i, c in tab["o"].items() if i == 1)
      and pd(l.get_priced_addresses({2, 9})) == sorted((i, c) for i, c in tab["a"].items() if i == 2), "priced", "get_priced_* disagree with the recorded routes", hist)
  # closing
  calls = []
  l.on_closed.append(lambda: calls.append(1))
  waiting = asyncio.create_task(l.recv()) if rng.random() < 0.5 else None
  await asyncio.sleep(0); await asyncio.sleep(0)
  l.close(); l.close(); l.sent.clear()
  o.expect(l.closed and calls == [1], "close", f"handlers called {len(calls)} times", hist)
  for m in (InTopicsChangedMessage({1}, set()), TopicControlMessage(1, True)):
    st, v = await aattempt(l.send(m), 2)
    o.expect(st == "raise" and isinstance(v, ConnectionClosedError) and not l.sent, "closed-send", f"send on a closed link: {v!r}", hist)
  l.put(TopicControlMessage(1, True))
  if waiting is not None:
    st, v = await aattempt(waiting, 2)
    o.expect(st == "raise" and isinstance(v, ConnectionClosedError), "closed-recv-pending", f"pending recv gave {v!r}", hist)
  st, v = await aattempt(l.recv(), 2)
  o.expect(st == "raise" and isinstance(v, ConnectionClosedError), "closed-recv", f"recv on a closed link gave {v!r}", hist)
  o.case(hist)

async def pairs(o, rng):
  """two real ends: what one end wants is what the other end records"""
  from streamtasks.net import create_queue_connection
  a, b = create_queue_connection(raw=rng.random() < 0.5)
  hist = []
  for _ in range(rng.randint(1, 6)):
    m = InTopicsChangedMessage(subset(rng, range(4)), subset(rng, range(4)))
    hist.append(show(m))
    await a.send(m); await a.send(TopicControlMessage(9, True))
    while show(await b.recv()) != ("Ctl", 9, True): pass
    if not o.expect(a.recv_topics == b.in_topics, "ends-disagree", f"{a.recv_topics} / {b.in_topics}", hist): break
  o.case(hist)

def run(o):
  def h(o):
    async def main():
      for _ in o.loop(at_least=150): await history(o, o.rng)
    asyncio.run(main())
  def p(o):
    async def main():
      for _ in o.loop(at_least=100): await pairs(o, o.rng)
    asyncio.run(main())
  o.part("link histories", h, 0.7)
  o.part("both ends", p, 0.3)
