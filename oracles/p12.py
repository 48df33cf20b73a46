RULE = "a real switch with a requester and two servers on different ports whose handlers answer, stay silent, answer with an error, or fail before or after answering (ordinary, validation and fetch errors); every message reaching the requester's address is counted per request; a case is one history"
from svclib import *
from streamtasks.client.receiver import Receiver
from pydantic import BaseModel

class Strict(BaseModel): n: int
class Spy(Receiver):
  def __init__(self, c): super().__init__(c); self.got = []
  def on_message(self, m):
    if isinstance(m, AddressedMessage): self.got.append(m)

def handlers(log, where):
  async def ok(req): log.append((where, "ok")); await req.respond(["ok", req.body, where])
  async def silent(req): log.append((where, "silent"))
  async def error(req): log.append((where, "error")); await req.respond_error(("not_found", str(req.body)))
  async def fail(req): log.append((where, "fail")); raise RuntimeError("broken")
  async def invalid(req): log.append((where, "invalid")); Strict.model_validate({"n": "x"})
  async def fetcherr(req): log.append((where, "fetcherr")); raise FetchError(("general", "inner"))
  async def okfail(req): log.append((where, "okfail")); await req.respond("first"); raise RuntimeError("late")
  async def okinvalid(req): log.append((where, "okinvalid")); await req.respond("first"); Strict.model_validate({})
  async def okfetch(req): log.append((where, "okfetch")); await req.respond("first"); raise FetchError(("general", "late"))
  async def slow(req): log.append((where, "slow")); await settle(5); await req.respond("slow")
  return {f.__name__: f for f in (ok, silent, error, fail, invalid, fetcherr, okfail, okinvalid, okfetch, slow)}
EXPECT = {"silent": ("ok", None), "okfail": ("ok", "first"), "okinvalid": ("ok", "first"), "okfetch": ("ok", "first"), "slow": ("ok", "slow"), "error": ("error", None), "fail": ("error", None), "invalid": ("error", None), "fetcherr": ("error", None)}

async def history(o, rng):
  sw = Switch(); log, hist, tasks = [], [], []
  async def client(a): c = Client(await sw.add_local_connection()); c.start(); await c.set_address(a); return c
  cs, cr, cx = await client(1), await client(2), await client(3)
  spy = Spy(cr); await spy.start_recv()
  servers = {}
  names = list(handlers(log, 0)) 
  sub = {p: set(rng.sample(names, rng.randint(4, len(names)))) for p in (100, 200)}
  for p in (100, 200):
    s = FetchServer(cs, p) if p != 100 else FetchServer(cs); servers[p] = s
    for n, f in handlers(log, p).items():
      if n in sub[p]: (s.add_route(n, f) if rng.random() < 0.5 else s.route(n)(f))
    tasks.append(asyncio.ensure_future(s.run()))
  sigs = []
  sg = SignalServer(cs)
  for n in ("x", "y"):
    async def h(b, n=n):
      sigs.append((n, b))
      if b % 3 == 0: raise RuntimeError("bad")
    sg.route(n)(h)
  tasks.append(asyncio.ensure_future(sg.run()))
  await settle(10)
  try:
    for step in range(rng.randint(4, 10)):
      k = rng.choice(["fetch"] * 6 + ["signal", "foreign", "pair", "junk"])
      if k == "signal":
        n, b = rng.choice(["x", "y", "z"]), rng.randrange(10); hist.append((k, n, b)); before = len(sigs)
        await send_signal(cr, 1, n, b); await settle(15)
        o.expect(sigs[before:] == ([(n, b)] if n != "z" else []), "signal", f"signal {n}({b}) reached {sigs[before:]}", hist); continue
      if k == "junk":
        hist.append(k); await cr.send_to((1, rng.choice([100, 103])), RawData(rng.choice([5, {}, {"descriptor": "ok"}, [1]]))); await settle(8); continue
      if k == "foreign": # an answer to another port must not be taken
        hist.append(k); t = asyncio.ensure_future(ask(cr.fetch((3, 300), "nobody", 1), 2)); await settle(8)
        m = spy.got[-1:] ; await cx.send_to((2, 99), RawData({"body": "wrong", "error": False})); await settle(8)
        o.expect(not t.done(), "foreign-answer", "a message to another port was taken as the answer", hist)
        await cx.send_to((2, cr._port_generator._current - 1), RawData({"body": "right", "error": False})); st, r = await t
        o.expect((st, r) == ("ok", "right"), "own-answer", f"{st} {r!r}", hist); continue
      async def one(p, n, b):
        ep = 1 if p == 100 and rng.random() < 0.5 else (1, p)
        return await ask(cr.fetch(ep, n, b), 3)
      reqs = [(p := rng.choice([100, 200]), rng.choice(sorted(sub[p])), step * 10 + i) for i in range(2 if k == "pair" else 1)]
      hist.append((k, reqs)); before, lb = len(spy.got), len(log)
      res = await asyncio.gather(*[one(*r) for r in reqs]); await settle(15)
      o.expect(sorted(log[lb:]) == sorted((p, n) for p, n, b in reqs), "right-handler", f"requests {reqs} were handled by {log[lb:]}", hist)
      for (p, n, b), (st, r) in zip(reqs, res):
        e = EXPECT.get(n, ("ok", ["ok", b, p]))
        o.expect(st == e[0] and (st == "error" or r == e[1]), "answer-" + n, f"request {n}({b}) on port {p} gave {st} {r!r}, expected {e}", hist)
        if n == "error" and st == "error": o.expect(list(r.body) == ["not_found", str(b)], "error-content", f"{r.body!r}", hist)
      got = [m for m in spy.got[before:]]
      o.expect(len(got) == len(reqs), "answers-once", f"{len(got)} answers to {reqs}: {[m.data.data for m in got]}", hist)
  finally:
    for t in tasks: t.cancel()
    for t in tasks:
      try: await t
      except BaseException: pass
    await spy.stop_recv()
    sw.stop_receiving(); await settle(2)
  o.case(hist)

def run(o):
  def h(o):
    async def main():
      for _ in o.loop(at_least=20): await history(o, o.rng)
    asyncio.run(main())
  o.part("requests", h, 1)
