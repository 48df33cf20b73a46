RULE = "random switches (2-5 links, random subscriptions, transports that suspend, close or break during the delivery) receive data and control messages; the links that got them are compared with the subscriptions; a case is one scenario"
from netlib import *
from lib import aattempt

async def scenario(o, rng):
  sw = Switch()
  n = rng.randint(2, 5)
  links = [FakeLink(f"l{i}", suspend=rng.randint(0, 2)) for i in range(n)]
  for l in links: await sw.add_link(l)
  T = range(3)
  for l in links:
    l.put(InTopicsChangedMessage(subset(rng, T, 0.6), set()))
  await settle()
  hist = [("wants", {l.name: sorted(l.in_topics) for l in links})]
  state = {}
  for step in range(rng.randint(1, 5)):
    live = [l for l in links if not l.closed]
    if len(live) < 1: break
    for l in links: l.sent.clear()
    k = rng.choice(["data", "ctl", "sub"])
    origin = rng.choice(live)
    want = {l.name for l in live}
    if k == "sub":
      a = {rng.choice(list(T))}
      r = subset(rng, T, 0.3)
      hist.append(("subscribe", origin.name, sorted(a), sorted(r)))
      new = (origin.in_topics | a) - r
      fresh = new - origin.in_topics
      origin.put(InTopicsChangedMessage(a, r)); await settle()
      got = sorted((m.topic, m.paused) for m in origin.sent if isinstance(m, TopicControlMessage))
      o.expect(got == sorted((t, state[t]) for t in fresh if t in state), "replay", f"new subscriptions to {fresh} were told {got}, latest states {state}", hist)
      o.expect(not any(isinstance(m, TopicMessage) for l in live if l is not origin for m in l.sent), "replay-others", "another link was told", hist)
      o.expect(origin.in_topics == new, "subscribed", "wrong subscriptions", hist)
      continue
    t = rng.choice(list(T))
    m = TopicDataMessage(t, RawData({"x": step})) if k == "data" else TopicControlMessage(t, rng.random() < 0.5)
    breaking = [l for l in live if rng.random() < 0.2 and l is not origin]
    for l in breaking: l.close_at = 0
    late = [l for l in live if rng.random() < 0.15 and l is not origin and l not in breaking]
    if late and live[0] is not origin and live[0] not in late: live[0].on_send = lambda *_: [x.close() for x in late]
    else: late = []
    hist.append((k, t, "from", origin.name, "breaking", [l.name for l in breaking], "closing", [l.name for l in late]))
    if k == "ctl": state[t] = m.paused
    exp = [l for l in live if l is not origin and t in l.in_topics and l not in breaking and l not in late]
    no = [l for l in live if l is origin or t not in l.in_topics]
    origin.put(m); await settle()
    for l in live: l.on_send = None
    for l in exp:
      c = [show(x) for x in l.sent if isinstance(x, TopicMessage)]
      o.expect(c == [show(m)], "delivery", f"{l.name} wants topic {t} and got {c}", hist)
    for l in no:
      c = [show(x) for x in l.sent if isinstance(x, TopicMessage)]
      o.expect(not c, "delivery-unwanted" if l is not origin else "delivery-sender", f"{l.name} got {c}", hist)
    o.expect(sw.link_manager.has_link(origin), "sender-disconnected", "the sender was disconnected", hist)
    for l in breaking + late: l.close()
    await settle()
  o.case(hist)
  for l in links: l.close()
  await settle(5)

def run(o):
  def h(o):
    async def main():
      for _ in o.loop(at_least=80): await scenario(o, o.rng)
    asyncio.run(main())
  o.part("switch scenarios", h, 1)
