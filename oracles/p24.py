RULE = "random histories of numbers, rubbish, pauses and messages on the inputs of each task on a real network, in every configuration, one at a time, against a reference of the task's logic; time is simulated; a case is one event"
import math, time
from lib import run_async
from tasklib import *
from streamtasks.system.tasks.gate import *
from streamtasks.system.tasks.srlatch import *
from streamtasks.system.tasks.switch import *
from streamtasks.system.tasks.stringconcatenator import *
from streamtasks.system.tasks.messagedetector import *

class SimLoop(asyncio.SelectorEventLoop):
  """time stands still while something can run and jumps to the next timer otherwise"""
  now = 0.0
  def time(self): return self.now
  def _run_once(self):
    if not self._ready and self._scheduled and not self._stopping:
      self.now = max(self.now, min(h._when for h in self._scheduled if not h._cancelled) if any(not h._cancelled for h in self._scheduled) else self.now)
    super()._run_once()
def sim(coro):
  loop = SimLoop()
  try: return loop.run_until_complete(coro)
  finally: loop.close()
TS = 1000
def num(rng): return rng.choice([0.0, 1.0, 0.5, 0.5000001, 0.49, -3.0, 7.0, math.inf, -math.inf, rng.uniform(-1, 2)])
def bad(rng): return rng.choice([{"timestamp": TS}, {"timestamp": TS, "value": "x"}, {"timestamp": TS, "value": None}, {"timestamp": TS, "value": []}])
def data(b): return [d for k, d in b.take() if k == "data"]
def event(rng, paused, i, sync=False, p=.2, q=.35):
  """synchronised inputs wait for one that resumed (P13): they are not resumed here"""
  r = rng.random()
  if r < p and not (sync and paused[i]): paused[i] = not paused[i]; return paused[i]
  if r < q: return bad(rng)
  return {"timestamp": TS, "value": num(rng)}
def num_of(d): return d["value"] if isinstance(d, dict) and isinstance(d.get("value"), (int, float)) else None

async def gate(o):
  rng = o.rng; mode = rng.choice(list(GateFailMode)); init = rng.random() < .5; sync = rng.random() < .5
  cfg = GateConfig(fail_mode=mode, synchronized=sync, initial_control=init, control_topic=1, in_topic=2, out_topic=3)
  hist = [("gate", mode.value, init, sync)]; ctl, cp, ce, ip = init, False, False, False; paused = {1: False, 2: False}
  async with bench(lambda c: GateTask(c, cfg), [1, 2], 3) as b:
    b.take()
    for n in range(rng.randint(5, 25)):
      t = rng.choice([1, 2]); d = event(rng, paused, t, sync) if t == 1 or rng.random() < .2 else {"timestamp": TS, "value": n}
      hist.append((t, d)); is_open = ctl and not ip and not (mode == GateFailMode.CLOSED and (cp or ce))
      await b.feed(t, d); got = data(b)
      want = [d] if t == 2 and isinstance(d, dict) and is_open else []
      if t == 1:
        if isinstance(d, bool): cp = d
        elif num_of(d) is None: ce = True
        else: ctl, ce = d["value"] > .5, False
      elif isinstance(d, bool): ip = d
      if not o.expect(not b.died and got == want, "gate", f"the gate forwards {got} instead of {want}", hist): return
      o.case(hist[-1])
async def latch(o):
  rng = o.rng; init, sync = rng.random() < .5, rng.random() < .5
  cfg = SRLatchConfig(default_value=init, synchronized=sync, set_topic=1, reset_topic=2, out_topic=3)
  hist = [("latch", init, sync)]; v, cur, paused = init, {1: False, 2: False}, {1: False, 2: False}
  async with bench(lambda c: SRLatchTask(c, cfg), [1, 2], 3) as b:
    b.take()
    for _ in range(rng.randint(5, 25)):
      t = rng.choice([1, 2]); d = event(rng, paused, t, sync); hist.append((t, d)); await b.feed(t, d); got = data(b); want = []
      if not isinstance(d, bool) and num_of(d) is not None:
        cur[t] = d["value"] > .5
        if cur[1] != cur[2]: v = cur[1]
        want = [{"timestamp": TS, "value": float(v)}]
      if not o.expect(not b.died and got == want, "latch", f"the latch sends {got} instead of {want}", hist): return
      o.case(hist[-1])
async def switch(o):
  rng = o.rng; n = rng.randint(1, 4); cfg = SwitchConfig(pairs=[{"control": 10 + i, "input": 20 + i} for i in range(n)], output=3)
  hist = [("switch", n)]; vals = {}; ts = [*range(10, 10 + n), *range(20, 20 + n)]; paused = {t: False for t in ts}
  async with bench(lambda c: SwitchTask(c, cfg), ts, 3) as b:
    b.take()
    for k in range(rng.randint(5, 30)):
      t = rng.choice(ts); i = t % 10; d = event(rng, paused, t, True) if t < 20 or rng.random() < .2 else {"timestamp": TS, "value": k}
      if t < 20 and isinstance(d, dict) and rng.random() < .08: d = {"timestamp": TS, "value": math.nan}
      hist.append((t, d)); best = [j for j, v in vals.items() if v == max(vals.values())]
      await b.feed(t, d); got = data(b)
      if t >= 20 and isinstance(d, dict):
        ok = got == [d] if best == [i] else got == [] if i not in best else got in ([], [d])
        if not o.expect(ok and not b.died, "switch", f"controls {vals}: input {i} is forwarded as {got}", hist): return
      elif not o.expect(got == [] and not b.died, "switch-control", f"a control or pause sends {got}, or the switch stopped", hist): return
      if t < 20:
        if d is True: vals.pop(i, None)
        elif isinstance(d, dict) and num_of(d) is not None and d["value"] == d["value"]: vals[i] = d["value"]
      o.case(hist[-1])
async def concat(o):
  rng = o.rng; sync = rng.random() < .5
  cfg = StringConcatenatorConfig(synchronized=sync, control_topic=1, in_topic=2, out_topic=3)
  hist = [("concatenator", sync)]; text, last, paused = "", 0, {1: False, 2: False}
  async with bench(lambda c: StringConcatenatorTask(c, cfg), [1, 2], 3) as b:
    b.take()
    for _ in range(rng.randint(5, 30)):
      t = rng.choice([1, 2]); d = event(rng, paused, t, sync) if t == 1 or rng.random() < .2 else {"timestamp": TS, "value": rng.choice(["", "a", "b c", "ä"])} if rng.random() < .85 else {"timestamp": TS, "value": 5}
      hist.append((t, d)); await b.feed(t, d); got = data(b); want = []
      if t == 2 and isinstance(d, dict) and isinstance(d.get("value"), str) and num_of(d) is None: text += d["value"]
      if t == 1 and not isinstance(d, bool) and num_of(d) is not None:
        if not last > .5 and d["value"] > .5 and text: want = [{"timestamp": TS, "value": text}]; text = ""
        last = d["value"]
      if not o.expect(not b.died and got == want, "concatenator", f"the concatenator sends {got} instead of {want}", hist): return
      o.case(hist[-1])
async def detector(o):
  rng = o.rng; mode = rng.choice(list(MessageDetectorFailMode)); tmo = rng.choice([0, 2.0]); rep = rng.choice([0, 0.7])
  cfg = MessageDetectorConfig(fail_mode=mode, time_out=tmo, repeat_interval=rep, in_topic=1, signal_topic=3)
  hist = [("detector", mode.value, tmo, rep)]; paused, invalid, last = False, False, 0.0; loop = asyncio.get_running_loop()
  async with bench(lambda c: MessageDetectorTask(c, cfg), [1], 3) as b:
    sig = [1.0]; heard = loop.time(); late = False
    for _ in range(rng.randint(4, 20)):
      r = rng.random()
      if r < .3:
        dt = rng.choice([0.317, 1.071, 1.633, 2.5]); hist.append(("wait", dt)); await asyncio.sleep(dt); await settle()
        if tmo and loop.time() - heard > tmo: late = True
      elif r < .5: paused = not paused; hist.append(paused); await b.feed(1, paused)
      else:
        d = {"timestamp": rng.randint(1, 10**9), "v": 1} if rng.random() < .6 else rng.choice([{"v": 1}, 5, "x", {"timestamp": "now"}, {"timestamp": math.inf}])
        hist.append(d); await b.feed(1, d); heard = loop.time(); late = False; invalid = not (isinstance(d, dict) and isinstance(d.get("timestamp"), int))
      got = data(b); sig += [g["value"] for g in got]
      want = float(not paused and not late and (mode == MessageDetectorFailMode.OPEN or not invalid))
      if not o.expect(not b.died and sig[-1] == want, "detector", f"the last signal is {sig[-1]} instead of {want}", hist): return
      o.case(hist[-1])
def part(f):
  def p(o):
    for _ in o.loop(at_least=10): sim(asyncio.wait_for(f(o), 10**6))
  return p
def run(o):
  for n, f in (("gate", gate), ("latch", latch), ("switch", switch), ("concatenator", concat), ("detector", detector)): o.part(n, part(f), 0.2)
