RULE = "byte messages built from the frame marker's bytes, empty and large ones are written by concurrent senders, some of them cancelled, to a stream connection and read back from the written bytes, fed in random pieces, optionally behind garbage that contains parts of the marker; a case is one stream"
import struct
from svclib import *
from lib import aattempt
from streamtasks.connection import RawStreamConnection, RawWebsocketConnection, RawConnectionLink
from streamtasks.net import ConnectionClosedError
from streamtasks.net.messages import *

M = RawStreamConnection.SYNC_WORD
class Writer:
  def __init__(self, rng): self.b, self.rng, self.closed = b"", rng, False
  def write(self, x): self.b += bytes(x)
  def writelines(self, xs):
    for x in xs: self.write(x)
  async def drain(self):
    for _ in range(self.rng.choice([0, 0, 1, 3])): await asyncio.sleep(0)
  def close(self): self.closed = True

def piece(rng):
  r = rng.random()
  if r < 0.15: return b""
  if r < 0.3: return bytes(rng.randrange(256) for _ in range(rng.randint(1, 12)))
  if r < 0.35: return rng.randbytes(rng.randint(1000, 70000))
  return b"".join(rng.choice([M, M[:1], M[:2], M[:3], M[1:], b"\0", struct.pack("<L", rng.randint(0, 9))]) for _ in range(rng.randint(1, 5)))

def first_marker(b): return b.find(M)

async def stream(o, rng):
  r, w = asyncio.StreamReader(limit=1 << 20), Writer(rng)
  c = RawStreamConnection(r, w)
  msgs = [piece(rng) for _ in range(rng.randint(1, 6))]
  hist = ["messages", msgs if sum(map(len, msgs)) < 400 else [len(m) for m in msgs]]
  if rng.random() < 0.5:
    for m in msgs: await c.send(m)
  else: await asyncio.gather(*[c.send(m) for m in msgs])
  garbage = b""
  if rng.random() < 0.5: garbage = b"".join(rng.choice([M[:1], M[:2], M[:3], M[1:], bytes([rng.randrange(256)])]) for _ in range(rng.randint(1, 6)))
  inp = garbage + w.b
  expected = msgs
  if first_marker(inp) != len(garbage): garbage = b""; inp = w.b  # the garbage makes up a marker itself
  hist.append(("garbage", garbage))
  async def feed():
    i = 0
    while i < len(inp):
      n = rng.choice([1, 2, 3, 5, 17, 1000, 100000]); r.feed_data(inp[i:i+n]); i += n
      if rng.random() < 0.5: await asyncio.sleep(0)
    r.feed_eof()
  t = asyncio.ensure_future(feed())
  got = []
  for m in expected:
    st, v = await aattempt(c.recv(), 5)
    if st != "ok": got.append(repr(v)); break
    got.append(v)
  show = lambda l: [x if len(x) < 60 else (len(x), hash(x)) for x in l]
  o.expect(got == expected, "frames" + ("-garbage" if garbage else ""), f"received {show(got)}, sent {show(expected)}", hist)
  if got == expected:
    st, v = await aattempt(c.recv(), 5)
    o.expect(st == "raise" and isinstance(v, ConnectionClosedError), "end", f"after the last frame: {st} {v!r}", hist)
  await t
  o.case(hist)

async def cancelled(o, rng):
  """senders that are given up at any point: their message arrives whole or not at all, the others arrive whole and in order"""
  r, w = asyncio.StreamReader(limit=1 << 20), Writer(rng)
  async def drain():
    for _ in range(rng.choice([0, 1, 2, 5, 9])): await asyncio.sleep(0)
  w.drain = drain
  c = RawStreamConnection(r, w)
  msgs = [bytes([65 + i]) * rng.choice([1, 3, 40, 5000, 70000, 300000 if rng.random() < 0.2 else 7]) for i in range(rng.randint(2, 6))]
  ts, gone = [], set()
  for i, m in enumerate(msgs):
    ts.append(asyncio.ensure_future(c.send(m)))
    for _ in range(rng.choice([0, 0, 1, 2, 4])): await asyncio.sleep(0)
    if rng.random() < 0.4:
      j = rng.randrange(len(ts))
      if not ts[j].done(): ts[j].cancel(); gone.add(j)
  await asyncio.gather(*ts, return_exceptions=True)
  for _ in range(20): await asyncio.sleep(0)
  r.feed_data(w.b); r.feed_eof()
  got = []
  while True:
    st, v = await aattempt(c.recv(), 5)
    if st != "ok": break
    got.append(v)
  hist = [[len(m) for m in msgs], sorted(gone)]
  o.expect(not set(got) - set(msgs), "mangled", f"received {[(x[:1], len(x)) for x in got]} for messages of {hist[0]} bytes, given up: {hist[1]}", hist)
  if not set(got) - set(msgs):
    ix = [msgs.index(x) for x in got]
    o.expect(ix == sorted(set(ix)) and all(i in ix or i in gone for i in range(len(msgs))), "given-up", f"received {ix} of {len(msgs)}, given up: {hist[1]}", hist)
  o.case(hist)

async def link(o, rng):
  a = [asyncio.StreamReader(limit=1 << 20) for _ in range(2)]
  class W(Writer):
    def __init__(self, rd): super().__init__(rng); self.rd = rd
    def write(self, x): self.rd.feed_data(bytes(x))
  ls = [RawConnectionLink(RawStreamConnection(a[i], W(a[1 - i])), 1) for i in range(2)]
  n = rng.randint(1, 5); msgs = []
  for i in range(n):
    k = rng.randrange(3)
    if k == 0: msgs.append(AddressedMessage(i, rng.randrange(9), RawData({"x": i, "b": piece(rng)})))
    elif k == 1: msgs.append(AddressesChangedMessage({PricedId(i, rng.randrange(5))}, {i + 7}))
    else: msgs.append(InTopicsChangedMessage({i}, {i + 1}))
  for m in msgs: await ls[0]._send(m)
  got = []
  for m in msgs:
    st, v = await aattempt(ls[1]._recv(), 5); got.append(v if st == "ok" else repr(v))
  f = lambda m: (m.address, m.port, m.data.data) if isinstance(m, AddressedMessage) else show(m) if not isinstance(m, str) else m
  o.expect([f(m) for m in got] == [f(m) for m in msgs], "link", f"received {[f(m) for m in got]}, sent {[f(m) for m in msgs]}", [f(m) for m in msgs])
  a[1].feed_data(M + struct.pack("<L", 3) + b"\xff\xff\xff")
  st, v = await aattempt(ls[1]._recv(), 5)
  o.expect(st == "raise" and isinstance(v, ConnectionClosedError), "malformed", f"a malformed message gives {st} {v!r}", None)
  o.case([f(m) for m in msgs])

class Socket:
  def __init__(self): self.q, self.sent = asyncio.Queue(), []
  async def send(self, x): self.sent.append(x); self.q.put_nowait(x)
  async def recv(self): return await self.q.get()
  async def close(self): pass
async def ws(o, rng):
  s = Socket(); c = RawWebsocketConnection(s); msgs = [piece(rng) for _ in range(rng.randint(1, 4))]
  for m in msgs:
    if rng.random() < 0.3: s.q.put_nowait("text")
    await c.send(m)
  got = [(await aattempt(c.recv(), 5))[1] for m in msgs]
  o.expect(got == msgs, "websocket", f"received {got}, sent {msgs}", msgs)
  o.case(("ws", len(msgs)))

def run(o):
  def part(f, n):
    def g(o):
      async def main():
        for _ in o.loop(at_least=n): await f(o, o.rng)
      asyncio.run(main())
    return g
  o.part("streams", part(stream, 50), 0.4)
  o.part("cancelled senders", part(cancelled, 40), 0.2)
  o.part("links", part(link, 20), 0.25)
  o.part("websockets", part(ws, 20), 0.15)
