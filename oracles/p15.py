RULE = "one server object with or without a secret gets a sequence of connections over in-memory streams: right and wrong versions, right, wrong and missing secrets, malformed first messages, and real clients; its answers, its links and the closing of both ends are compared with the rule; then the same over real unix sockets; a case is one sequence of connections"
import msgpack, tempfile, os
from svclib import *
from lib import aattempt
from streamtasks.connection import *
from streamtasks import connection as C

class W:
  def __init__(self, rd, own): self.rd, self.own, self.closed, self.out = rd, own, False, b""
  def write(self, x):
    if self.closed: raise ConnectionResetError()
    self.out += bytes(x); self.rd.feed_data(bytes(x))
  async def drain(self): await asyncio.sleep(0)
  def close(self):
    if not self.closed:
      self.closed = True; self.rd.feed_eof(); self.own.feed_eof()
def pair():
  a, b = asyncio.StreamReader(), asyncio.StreamReader()
  return (a, W(b, a)), (b, W(a, b))

class Server(StreamServerBase):
  async def run_server(self): pass

async def history(o, rng):
  secret = rng.choice([None, "s3cret", "x", ""])
  hs = {} if secret is None else {"auth": secret}
  if rng.random() < 0.4: hs["username"] = "me"
  cost = rng.randint(1, 9)
  s = Server(cost, dict(hs)); ver = C._get_version_specifier()
  added = []
  real = s.switch.add_link
  async def add(l): added.append(l); return await real(l)
  s.switch.add_link = add
  hist = [("server", secret)]
  for _ in range(rng.randint(2, 5)):
    (sr, sw), (cr, cw) = pair(); n = len(added)
    k = rng.choice(["good", "good", "bad-secret", "no-secret", "bad-version", "no-version", "malformed", "nodict", "eof", "client"])
    auth = {"good": secret, "bad-secret": rng.choice(["wrong", 7, True, (secret or "") + "x"]), "no-secret": None}.get(k, secret)
    v = {"bad-version": rng.choice(["0.0", ver + ".1", 1]), "no-version": None}.get(k, ver)
    hist.append((k, auth)); t = asyncio.ensure_future(s.on_connection(sr, sw))
    good = v == ver and (secret is None and auth is None or secret is not None and auth == secret) and k not in ("malformed", "nodict", "eof")
    conn = RawStreamConnection(cr, cw)
    if k == "client":
      st, r = await aattempt(conn.init_client({} if auth is None else {"auth": auth}), 5)
      o.expect((st == "ok") == good, "client", f"init_client {'succeeded' if st == 'ok' else r!r}", hist)
      o.expect(cw.closed == (not good), "client-close", f"client closed: {cw.closed}", hist)
    else:
      if k == "malformed": await conn.send(b"\xc1\xff")
      elif k == "nodict": await conn.send(msgpack.packb(rng.choice([5, [1], "x", None])))
      elif k == "eof": cw.close()
      else: await conn.send(msgpack.packb({**({} if v is None else {"version": v}), **({} if auth is None else {"auth": auth})}))
      if k != "eof":
        st, ans = await aattempt(conn.recv(), 5) if k not in ("malformed", "nodict") else ("none", None)
        if st == "ok":
          a = msgpack.unpackb(ans)
          o.expect(a.get("accepted") == good, "answer" if good else "accepted-" + k, f"server with secret {secret!r} answers {a} to {k}", hist)
          o.expect("auth" not in a and secret not in [x for q, x in a.items() if q != "username"] or secret is None, "leak", f"the answer contains the secret: {a}", hist)
    try: await asyncio.wait_for(t, 5)
    except Exception as e: o.violate("server-raises", repr(e), hist)
    await settle(6)
    new = added[n:]
    o.expect(len(new) == (1 if good else 0), "links" if good else "link-" + k, f"{len(new)} links added after {k}", hist)
    if good and new: o.expect(new[0]._cost == cost, "cost", f"link costs {new[0]._cost}, configured {cost}", hist)
    if not good: o.expect(sw.closed, "not-closed-" + k, f"the server left the connection open after {k}", hist)
    if good and rng.random() < 0.5: cw.close(); await settle(4)
  s.switch.stop_receiving(); await settle(3)
  o.case(hist)

async def reject_client(o, rng):
  """the client side: takes only a matching acceptance"""
  (sr, sw), (cr, cw) = pair(); ver = C._get_version_specifier()
  a = rng.choice([{"accepted": True, "version": ver}, {"accepted": False, "version": ver}, {"accepted": True, "version": rng.choice(["0", ver + "0", ver + ".1", " " + ver, ver[:-1], ver.upper() + " ", "x" + ver, 1, True, None])}, {"accepted": True}, {"version": ver}, {"accepted": "yes", "version": ver}, [1], 3, None])
  srv = RawStreamConnection(sr, sw)
  await srv.send(msgpack.packb(a) if a is not None else b"\xc1")
  st, r = await aattempt(RawStreamConnection(cr, cw).init_client({}), 5)
  good = a == {"accepted": True, "version": ver}
  o.expect((st == "ok") == good, "client-takes", f"answer {a}: {st} {r!r}", a)
  o.expect(cw.closed == (not good), "client-closes", f"answer {a}: closed {cw.closed}", a)
  o.case(repr(a))

async def sockets(o, rng):
  with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "s"); secret = rng.choice([None, "abc"])
    q = "" if secret is None else "?auth=abc"
    s = create_server(f"unix://{p}{q}"); t = asyncio.ensure_future(s.run()); hist = [secret]
    await s.wait_running(); 
    for _ in range(100):
      if os.path.exists(p): break
      await asyncio.sleep(0.01)
    links = []
    for _ in range(rng.randint(2, 3)):
      c = rng.choice(["", "?auth=abc", "?auth=abd"]); hist.append(c)
      st, l = await aattempt(connect(f"unix://{p}{c}"), 5)
      good = (c == "?auth=abc") if secret else c == ""
      o.expect((st == "ok") == good, "socket", f"connect {c} to a server with secret {secret}: {st} {l!r}", hist)
      if st == "ok": links.append(l)
    await asyncio.sleep(0.02)
    o.expect(s.connection_count == len(links), "socket-count", f"{s.connection_count} connections, {len(links)} clients", hist)
    for l in links: l.close()
    t.cancel(); await asyncio.gather(t, return_exceptions=True); await asyncio.sleep(0.01)
    o.case(hist)

def run(o):
  import logging; logging.disable(logging.CRITICAL)
  def part(f, n):
    def g(o):
      async def main():
        for _ in o.loop(at_least=n): await f(o, o.rng)
      asyncio.run(main())
    return g
  o.part("connections", part(history, 50), 0.6)
  o.part("clients", part(reject_client, 20), 0.15)
  o.part("sockets", part(sockets, 5), 0.25)
