"""Concrete search on the real code: used to replay a failed obligation, as bounded stand-in and as a cross-check of the contracts.

run:  python oracles/run.py <property> <quick|thorough> <seed> <out.json>
An oracle reports a violation only for an observable disagreement of the real code with the property; any trouble of the
harness itself (a name it needs is gone, ...) is reported as a harness error and never as a violation."""
import asyncio, json, random, time, traceback, os, sys

class Stop(Exception): pass

class Oracle:
  def __init__(self, prop, tier, seed, budget):
    self.prop, self.tier, self.seed, self.rng = prop, tier, seed, random.Random(seed)
    self.cases, self.violations, self.errors, self.samples, self.keys = 0, [], [], [], set()
    self.deadline = time.time() + budget
    self.budget = budget
    self.sections = {}
    self.section = ""
    self._distinct = set()
  # -- reporting
  def case(self, inp=None):
    self.cases += 1
    self.sections[self.section] = self.sections.get(self.section, 0) + 1
    if inp is not None:
      self._distinct.add(hash(repr(inp)))
      if len([s for s in self.samples if s[0] == self.section]) < 2: self.samples.append((self.section, repr(inp)[:400]))
  def violate(self, key, msg, inp=None):
    """key: stable identification of what fails (call site / kind of input)"""
    if key in self.keys: return
    self.keys.add(key)
    self.violations.append({"key": key, "message": str(msg)[:2000], "input": repr(inp)[:4000]})
    if len(self.violations) >= 12: raise Stop()
  def expect(self, cond, key, msg, inp=None):
    if not cond: self.violate(key, msg, inp)
    return cond
  def time_left(self): return self.deadline - time.time()
  def part(self, name, fn, share=1.0):
    """runs one part of the oracle with its share of the time"""
    if self.time_left() <= 0 and self.sections.get(name): return
    self.section = name
    total = self.deadline
    self.deadline = min(total, time.time() + max(self.budget * share, 1.0))
    try: fn(self)
    except Stop: raise
    except Exception as e: self.errors.append(name + ": " + "".join(traceback.format_exception(e))[-1500:])
    finally: self.deadline = total
  def loop(self, limit=10**9, at_least=20):
    """yields case numbers until the time of this part is used up"""
    i = 0
    while i < limit and (i < at_least or self.time_left() > 0):
      yield i
      i += 1

def attempt(fn, *a, **k):
  """('ok', value) or ('raise', exception)"""
  try: return ("ok", fn(*a, **k))
  except Exception as e: return ("raise", e)

async def aattempt(aw, timeout=5):
  try: return ("ok", await asyncio.wait_for(aw, timeout))
  except (Exception, asyncio.CancelledError) as e: return ("raise", e)

def run_async(coro, timeout=30):
  async def main(): return await asyncio.wait_for(coro, timeout)
  return asyncio.run(main())
