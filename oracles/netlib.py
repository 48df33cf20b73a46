"""a real Switch with links whose transport is a recorder"""
import asyncio
from streamtasks.net import Link, Switch, ConnectionClosedError
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData

class FakeLink(Link):
  def __init__(self, name="l", cost=1, suspend=0, close_at=None, on_send=None):
    super().__init__(cost)
    self.name, self.suspend, self.close_at, self.on_send = name, suspend, close_at, on_send
    self.sent, self.q, self.price = [], asyncio.Queue(), cost
  def __repr__(self): return self.name
  async def _send(self, message):
    if self.close_at is not None and len(self.sent) >= self.close_at:
      self.close()
      raise ConnectionClosedError()
    self.sent.append(message)
    for _ in range(self.suspend): await asyncio.sleep(0)
    if self.on_send: self.on_send(self, message)
  async def _recv(self): return await self.q.get()
  def put(self, m): self.q.put_nowait(m)
  def close(self): # a queue link's receiver wakes up when its peer closes
    super().close()

async def settle(n=30):
  for _ in range(n): await asyncio.sleep(0)

def pids(d): return {PricedId(i, c) for i, c in d.items()}
def pd(ids): return sorted((x.id, x.cost) for x in ids)
def show(m):
  if isinstance(m, (OutTopicsChangedMessage, AddressesChangedMessage)): return (type(m).__name__, pd(m.add), sorted(m.remove))
  if isinstance(m, (OutTopicsChangedRecvMessage, AddressesChangedRecvMessage)): return (type(m).__name__, pd(m.add), pd(m.remove))
  if isinstance(m, InTopicsChangedMessage): return ("In", sorted(m.add), sorted(m.remove))
  if isinstance(m, TopicDataMessage): return ("Data", m.topic, m.data.data)
  if isinstance(m, TopicControlMessage): return ("Ctl", m.topic, m.paused)
  if isinstance(m, AddressedMessage): return ("Addr", m.address, getattr(m, "port", None), m.data.data)
  return repr(m)
def subset(rng, l, p=0.4): return {x for x in l if rng.random() < p}
def priced(rng, l, p=0.4, lo=0, hi=4): return {PricedId(x, rng.randint(lo, hi)) for x in l if rng.random() < p}
