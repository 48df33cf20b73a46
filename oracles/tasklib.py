"""runs a task of the system on a real switch: topics are fed and watched by a second client, one event at a time"""
import asyncio, contextlib
from streamtasks.client import Client
from streamtasks.net import Switch, create_queue_connection
from streamtasks.net.serialization import RawData
from streamtasks.net.messages import TopicControlData

async def settle(n=40):
  for _ in range(n): await asyncio.sleep(0)

class Bench:
  def __init__(self): self.got, self.pauses, self.tasks = [], [], []
  async def feed(self, topic, data):
    o = self.outs[topic]
    if isinstance(data, bool): await o.set_paused(data)
    else: await o.send(RawData(data))
    await settle()
  def take(self):
    r, self.got = self.got, []
    return r
  @property
  def died(self): return self.task.done()

@contextlib.asynccontextmanager
async def bench(make, ins, out):
  """make(client) -> task; ins: topics fed, out: topic watched"""
  b = Bench(); sw = Switch(); cs = []
  for _ in range(2):
    a, z = create_queue_connection()
    await sw.add_link(a); cs.append(Client(z))
  try:
    c = cs[0]
    b.outs = {t: c.out_topic(t) for t in ins}; i = c.in_topic(out)
    for o in b.outs.values(): await o.start(); await o.set_registered(True)
    await i.start(); await i.set_registered(True)
    c.start()
    async def watch():
      while True:
        d = await i.recv_data_control()
        b.got.append(("pause", d.paused) if isinstance(d, TopicControlData) else ("data", d.data))
    t = make(cs[1])
    async def run(): await t.setup(); await t.run()
    b.task = asyncio.ensure_future(run()); b.tasks = [b.task, asyncio.ensure_future(watch())]
    await settle(80)
    yield b
  finally:
    for t in b.tasks: t.cancel()
    for t in b.tasks:
      try: await t
      except BaseException: pass
    for c in cs:
      try: await c.stop_wait()
      except BaseException: pass
    sw.stop_receiving()
    await settle(5)
