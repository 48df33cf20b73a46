RULE = "random nested values of text, bytes, numbers, booleans, nothing, lists and text-keyed mappings are encoded, carried by msgpack and decoded, for both codecs and with untransportable parts mixed in; then scopes and events are sent through real ASGIProxyApp and ASGIAppRunner over an in-memory network in both directions; a case is one value or one bridged connection"
import msgpack
from svclib import *
from lib import aattempt, attempt, run_async
from streamtasks.asgi import *
from streamtasks.net.serialization import RawData

class Odd: pass
def val(rng, d, odd=False):
  k = rng.randint(0, 12 if d > 0 else 7)
  if odd and rng.random() < 0.12: return Odd()
  if k == 0: return None
  if k == 1: return rng.random() < 0.5
  if k == 2: return rng.choice([0, 1, -1, 255, -2**63, 2**64 - 1, rng.randint(-10**6, 10**6)])
  if k == 3: return rng.choice([0.0, 1.0, -1.5, 1e300, 5e-324, float("inf"), rng.random()])
  if k in (4, 5): return rng.choice(["", "a", "ä€", "list", "bytes", "none", "unknown", "00ff", "x" * 40, "dict", "\x00"])
  if k in (6, 7): return rng.choice([b"", b"\x00\xff", b"list", bytes(rng.randrange(256) for _ in range(20))])
  if k in (8, 9, 10): 
    l = [val(rng, d - 1, odd) for _ in range(rng.randint(0, 4))]
    if rng.random() < 0.3: l.insert(0, rng.choice(["list", "dict", "bytes", "int", "none", "unknown", "tuple", "set", "str", "float", "bool"]))
    return l
  return {rng.choice(["type", "list", "a", "b", "", "ä", "headers", "body"]): val(rng, d - 1, odd) for _ in range(rng.randint(0, 4))}
def clean(v):
  if isinstance(v, Odd): return None
  if isinstance(v, list): return [clean(x) for x in v]
  if isinstance(v, dict): return {k: clean(x) for k, x in v.items()}
  return v
def same(a, b):
  if type(a) is not type(b): return False
  if isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
  return a == b
def wire(x): return RawData(bytes(RawData(x).serialize())).data

def codec(o):
  for _ in o.loop(at_least=200):
    v = val(o.rng, o.rng.randint(0, 5), odd=o.rng.random() < 0.3); o.case(repr(v)[:2000])
    for c in (JSONValueTransformer, MessagePackValueTransformer):
      st, r = attempt(lambda: c.deannotate_value(wire({"v": c.annotate_value(v)})["v"]))
      if st != "ok": o.violate("codec-raises", f"{c.__name__}: {r!r} for {v!r}", v); continue
      o.expect(same(r, clean(v)), "codec", f"{c.__name__}: {v!r} arrives as {r!r}", v)

async def bridge(o):
  async with network(2, True) as (sw, cl):
    got = []; plan = {}
    async def app(scope, receive, send):
      got.append(("scope", scope))
      for e in plan["down"]: await send(e)
      for _ in plan["up"]:
        got.append(("event", await receive()))
      if plan["crash"]: raise RuntimeError("application")
    runner = ASGIAppRunner(cl[1], app)
    rt = asyncio.ensure_future(runner.run()); await settle(10)
    proxy = ASGIProxyApp(cl[0], cl[1].address)
    for i in o.loop(at_least=6):
      rng = o.rng
      scope = {"type": "http", "v": val(rng, 3), "odd": Odd() if rng.random() < 0.3 else 1}
      plan.update(down=[{"type": "http.response.body", "body": val(rng, 2), "x": val(rng, 3)} for _ in range(rng.randint(0, 3))], up=[{"type": "http.request", "b": val(rng, 3)} for _ in range(rng.randint(0, 3))], crash=rng.random() < 0.2)
      o.case(repr((scope, plan))[:1500]); got.clear(); out = []
      ups = list(plan["up"])
      async def receive():
        if ups: return ups.pop(0)
        await asyncio.sleep(3600)
      async def send(e): out.append(e)
      st, r = await aattempt(asyncio.wait_for(proxy(scope, receive, send), 10), 12)
      if st != "ok": o.violate("bridge", f"the proxy ends with {r!r}", (scope, plan)); break
      sc = [x for k, x in got if k == "scope"]; ev = [x for k, x in got if k == "event"]
      o.expect(len(sc) == 1 and same(sc[0], clean(scope)), "scope", f"scope {scope!r} arrives as {sc!r}", (scope, plan))
      o.expect(same(ev, [clean(x) for x in plan["up"]]), "up", f"events {plan['up']!r} arrive as {ev!r}", (scope, plan))
      o.expect(same(out, [clean(x) for x in plan["down"]]), "down", f"events {plan['down']!r} arrive as {out!r}", (scope, plan))
    rt.cancel()

def run(o):
  o.part("codec", codec, 0.5)
  o.part("bridge", lambda o: run_async(bridge(o)), 0.5)
