RULE = "one producer (coroutine or thread) whose run follows a random script of sends, pauses and an end, stopped and started by users and consumers that come and go at random, and closed at random times; every consumer's received messages are compared with those it accepts among what was sent; a case is one history"
import asyncio, time
from svclib import settle
from lib import aattempt, attempt, run_async
from streamtasks.utils import AsyncConsumer, AsyncProducer, AsyncMPProducer

class Shared:
  def setup(self, script): self.script, self.pos, self.log, self.active, self.runs, self.peak = script, 0, [], 0, 0, 0
  def enter(self): self.active += 1; self.runs += 1; self.peak = max(self.peak, self.active)
  def emit(self, x): self.log.append(x); self.send_message(x)
class Coro(Shared, AsyncProducer):
  async def run(self):
    self.enter()
    try:
      while self.pos < len(self.script):
        s = self.script[self.pos]; self.pos += 1
        if s == "end": raise EOFError()
        if s == "sleep": await asyncio.sleep(0)
        else: self.emit(s)
      await asyncio.sleep(3600)
    finally: self.active -= 1
class Thread(Shared, AsyncMPProducer):
  def run_sync(self):
    self.enter()
    try:
      while not self.stop_event.is_set():
        if self.pos >= len(self.script): time.sleep(0.0005); continue
        s = self.script[self.pos]; self.pos += 1
        if s == "end": raise EOFError()
        if s == "sleep": time.sleep(0.0003)
        else: self.emit(s)
    finally: self.active -= 1
class Odd(AsyncConsumer):
  def test_message(self, m): return m % 2 == 1

async def history(o, rng, cls):
  n = rng.randint(0, 10); script, k = [], 0
  for _ in range(n):
    if rng.random() < 0.3: script.append("sleep")
    else: script.append(k); k += 1
  ends = rng.random() < 0.6
  if ends: script.append("end")
  p = cls(); p.setup(script); hist = [cls.__name__, script]
  cons = [rng.choice([AsyncConsumer, Odd])(p) for _ in range(rng.randint(1, 3))]
  for c in cons: c.register()
  got = {c: [] for c in cons}; over = {}
  closes = rng.random() < (0.25 if ends else 1.0)
  if rng.random() < 0.1:
    st, r = await aattempt(p.close(), 5); hist.append("closed first")
    if not o.expect(st == "ok", "close", f"closing before it ran: {r!r}", hist): return
  async def reader(c):
    while True:
      for _ in range(rng.choice([0, 0, 1, 3])): await asyncio.sleep(0)
      try: got[c].append(await c.get())
      except EOFError: over[c] = len(c._queue); return
  async def user():
    for _ in range(rng.randint(1, 3)):
      try:
        async with p:
          o.expect(p.active <= 1, "shared", f"{p.active} runs at once", hist)
          for _ in range(rng.choice([0, 1, 2, 5])): await asyncio.sleep(0)
      except EOFError: return
      await asyncio.sleep(0)
  ts = [asyncio.ensure_future(reader(c)) for c in cons] + [asyncio.ensure_future(user()) for _ in range(rng.randint(0, 2))]
  async def closer():
    await asyncio.sleep(0.002 if cls is Thread else 0)
    for _ in range(rng.choice([0, 2, 6, 12])): await asyncio.sleep(0)
    for _ in range(rng.randint(1, 2)):
      hist.append("close")
      st, r = await aattempt(p.close(), 5)
      o.expect(st == "ok", "close", f"close raises {r!r}", hist)
  if closes: ts.append(asyncio.ensure_future(closer()))
  done, open_ = await asyncio.wait(ts, timeout=5)
  for t in done:
    if t.exception(): o.violate("raises", f"{t.exception()!r}", hist)
  for c in cons:
    want = [m for m in p.log if c.test_message(m)]
    o.case(hist)
    if c in over:
      o.expect(over[c] == 0 and got[c] + list(c._queue) == want, "lost", f"received {got[c]} and then the end, sent {want}", hist)
    else: o.expect(False, "hangs", f"received {got[c]} of {want} and then neither anything nor the end", hist)
  o.expect(p.peak <= 1, "shared", f"{p.peak} runs at once", hist)
  await settle(3)
  o.expect(not open_ and p.active == 0, "stopped", f"nobody uses the producer, but it runs ({p.active})", hist)
  for t in open_: t.cancel()
  if open_: await asyncio.gather(*open_, return_exceptions=True)

async def coro(o):
  for _ in o.loop(at_least=60): await history(o, o.rng, Coro)
async def thread(o):
  for _ in o.loop(at_least=15): await history(o, o.rng, Thread)
def run(o):
  o.part("coroutine", lambda o: run_async(coro(o)), 0.6)
  o.part("thread", lambda o: run_async(thread(o)), 0.4)
