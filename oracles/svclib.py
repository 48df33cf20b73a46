"""a real switch with the discovery service and connected clients"""
import asyncio, contextlib
from netlib import *
from streamtasks.client import Client
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.client.discovery import *
from streamtasks.client.fetch import FetchServer, FetchRequest, FetchError
from streamtasks.client.signal import SignalServer, send_signal
from streamtasks.services.constants import *

@contextlib.asynccontextmanager
async def network(clients=2, addressed=True):
  """-> (worker, [clients])"""
  w = DiscoveryWorker(); sw = Switch(); tasks = []
  await sw.add_link(await w.create_link())
  tasks.append(asyncio.ensure_future(w.run()))
  cs = []
  try:
    for i in range(clients):
      c = Client(await sw.add_local_connection()); c.start(); cs.append(c)
    await asyncio.wait_for(wait_for_topic_signal(cs[0], NetworkTopics.DISCOVERY_SIGNAL), 5)
    if addressed:
      for c in cs: await asyncio.wait_for(c.request_address(), 5)
    yield w, cs
  finally:
    for t in tasks: t.cancel()
    for t in tasks:
      try: await t
      except BaseException: pass
    for c in cs:
      try: await c.stop_wait()
      except BaseException: pass
    sw.stop_receiving()
    await settle(3)

async def ask(aw, timeout=3):
  """('ok', v) | ('raise', e) - FetchError is a BaseException"""
  try: return "ok", await asyncio.wait_for(aw, timeout)
  except FetchError as e: return "error", e
  except asyncio.TimeoutError as e: return "timeout", e
  except Exception as e: return "raise", e
