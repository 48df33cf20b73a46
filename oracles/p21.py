RULE = "random histories of storing, fetching, listing, deleting and resolving over the fetch service, the client class and the web routes of real managers on an in-memory network (messages serialised on every hop), compared with a dict; names contain percent signs, slashes and blanks; a case is one history"
import os, tempfile, json, urllib.parse, uuid
os.environ["DEBUG_SER"] = "1"
_dir = tempfile.TemporaryDirectory(); os.environ["DATA_DIR"] = _dir.name
from svclib import *
from lib import aattempt, run_async
from streamtasks.asgi import ASGIProxyApp
from streamtasks.system.named_topic_manager import NamedTopicManager
from streamtasks.system.secret_manager import SecretManager, SecretManagerClient

async def http(app, method, path, body=None, gate=None):
  """what a web server hands over for a request to the percent-encoded path"""
  raw = path.encode(); dec = urllib.parse.unquote(path)
  scope = {"type": "http", "method": method, "path": dec, "raw_path": raw, "query_string": b"", "headers": [[b"content-type", b"application/json"]], "http_version": "1.1", "scheme": "http", "root_path": ""}
  ev = [{"type": "http.request", "body": json.dumps(body).encode() if body is not None else b"", "more_body": False}]
  async def receive():
    if gate is not None: await gate.wait()
    if ev: return ev.pop(0)
    await asyncio.sleep(3600)
  out = []
  async def send(e): out.append(e)
  await asyncio.wait_for(app(scope, receive, send), 10)
  st = next((e["status"] for e in out if e["type"] == "http.response.start"), None)
  return st, b"".join(e.get("body", b"") or b"" for e in out if e["type"] == "http.response.body")
def q(n): return urllib.parse.quote(n, safe="")
NAMES = ["a", "b", "a b", "100%", "100%25", "a%2Fb", "a/b", "ä", "x?y", "%41", "A", "a/"]
def notfound(r): return r[0] == "error" and r[1].status_code.name == "NOT_FOUND"

async def topics(o):
  async with network(2, True) as (sw, cl):
    for _ in o.loop(at_least=4):
      rng = o.rng
      for f in os.listdir(os.path.join(_dir.name, "user-data")) if os.path.exists(os.path.join(_dir.name, "user-data")) else []: os.remove(os.path.join(_dir.name, "user-data", f))
      m = NamedTopicManager(); m.client = cl[0]
      ts = [asyncio.ensure_future(m.run_fetch_server()), asyncio.ensure_future(m.run_web_server())]
      await settle(10)
      app = ASGIProxyApp(cl[1], cl[0].address); d, ids, hist = {}, {}, []
      async def f(desc, body=None): return await ask(cl[1].fetch(cl[0].address, desc, body if body is not None else {}), 5)
      for _ in range(rng.randint(3, 12)):
        n = rng.choice(NAMES); op = rng.choice(["put", "put", "wput", "get", "wget", "del", "wdel", "list", "wlist", "resolve", "both", "slow"]); hist.append((op, n))
        md = {"k": rng.randint(0, 9)}
        if op == "put":
          r = await f("put_named_topic", {"name": n, "metadata": md}); d[n] = md
          o.expect(r == ("ok", {"name": n, "metadata": md}), "put", f"{r}", hist)
        elif op == "wput":
          st, b = await http(app, "PUT", "/api/named-topic", {"name": n, "metadata": md}); d[n] = md
          o.expect(st == 200, "web-put", f"{st} {b}", hist)
        elif op == "slow":
          # the body of a web request arrives while another one is served
          g = asyncio.Event(); n2 = rng.choice(NAMES); t = asyncio.ensure_future(http(app, "PUT", "/api/named-topic", {"name": n, "metadata": md}, g))
          await asyncio.sleep(0.01)
          if rng.random() < 0.7: r = await f("put_named_topic", {"name": n2, "metadata": {"k": 0}}); d[n2] = {"k": 0}
          else: r = await f("delete_named_topic", {"name": n2}); d.pop(n2, None)
          g.set(); st, b = await t; d[n] = md; hist.append(n2)
          o.expect(st == 200, "web-put", f"{st} {b}", hist)
        elif op == "get":
          r = await f("get_named_topic", {"name": n})
          o.expect(r == ("ok", {"name": n, "metadata": d[n]}) if n in d else notfound(r), "get", f"{r}, stored: {d.get(n)}", hist)
        elif op == "wget":
          st, b = await http(app, "GET", "/api/named-topic/" + q(n))
          if n.endswith("/") and False: continue
          o.expect((st == 200 and json.loads(b) == {"name": n, "metadata": d[n]}) if n in d else st == 404, "web-get", f"{st} {b}, stored: {d.get(n)}", hist)
        elif op == "del":
          r = await f("delete_named_topic", {"name": n}); d.pop(n, None)
          o.expect(r[0] == "ok", "delete", f"{r}", hist)
        elif op == "wdel":
          st, b = await http(app, "DELETE", "/api/named-topic/" + q(n)); d.pop(n, None)
          o.expect(st in (200, 404), "web-delete", f"{st} {b}", hist)
        elif op in ("resolve", "both"):
          rs = await asyncio.gather(*[f("resolve_named_topic", {"name": n}) for _ in range(2 if op == "both" else 1)])
          got = {r[1]["topic"] if r[0] == "ok" else repr(r) for r in rs}
          o.expect(len(got) == 1 and all(isinstance(x, int) for x in got), "resolve-same", f"{rs}", hist)
          t = got.pop()
          o.expect(ids.get(n, t) == t and t not in [v for k, v in ids.items() if k != n], "resolve", f"{n} resolves to {t}; earlier: {ids}", hist)
          ids[n] = t; d.setdefault(n, {})
        if op == "wlist": st, b = await http(app, "GET", "/api/named-topics"); l = json.loads(b) if st == 200 else [repr((st, b))]
        else:
          r = await f("list_named_topics"); l = r[1] if r[0] == "ok" else [repr(r)]
        o.expect(sorted(map(repr, l)) == sorted(repr({"name": k, "metadata": v}) for k, v in d.items()), "contents-" + op, f"after {op} of {n!r}: {l}, expected {d}", hist)
      o.case(hist)
      for t in ts: t.cancel()
      await asyncio.gather(*ts, return_exceptions=True)
      again = NamedTopicManager().db.entries

async def secrets(o):
  async with network(2, True) as (sw, cl):
    for _ in o.loop(at_least=4):
      rng = o.rng
      m = SecretManager(); m.client = cl[0]; m.db.update([])
      ts = [asyncio.ensure_future(m.run_fetch_server()), asyncio.ensure_future(m.run_web_server())]
      await settle(10)
      app = ASGIProxyApp(cl[1], cl[0].address); c = SecretManagerClient(cl[1], cl[0].address); d, hist = {}, []
      us = [uuid.UUID(int=rng.getrandbits(128), version=4) for _ in range(3)]
      for _ in range(rng.randint(3, 10)):
        u = rng.choice(us); v = rng.choice(["", "x", "ä" * 9, "s"]); op = rng.choice(["put", "wput", "get", "get", "del", "wdel", "fput"]); hist.append((op, str(u)))
        if op == "put": r = await ask(c.put_secret(u, v)); d[u] = v; o.expect(r[0] == "ok", "secret-put", f"{r}", hist)
        elif op == "fput":
          r = await ask(cl[1].fetch(cl[0].address, "put_secret", {"id": str(u), "value": v})); d[u] = v
          o.expect(r == ("ok", {"id": str(u), "value": v}), "secret-put", f"{r}", hist)
        elif op == "wput": st, b = await http(app, "PUT", "/api/secret", {"id": str(u), "value": v}); d[u] = v; o.expect(st == 200, "secret-web-put", f"{st} {b}", hist)
        elif op == "get":
          r = await ask(c.resolve_secret(u))
          o.expect(r == ("ok", d[u]) if u in d else notfound(r), "secret-get" if u in d else "secret-missing", f"{r}, stored: {d.get(u)}", hist)
        elif op == "del": r = await ask(c.delete_secret(u)); d.pop(u, None); o.expect(r[0] == "ok", "secret-delete", f"{r}", hist)
        elif op == "wdel": st, b = await http(app, "DELETE", "/api/secret/" + str(u)); d.pop(u, None); o.expect(st in (200, 404), "secret-web-delete", f"{st} {b}", hist)
        o.expect({e.id: e.value for e in m.db.entries} == d and len(m.db.entries) == len(d), "secrets-" + op, f"after {op}: {m.db.entries}, expected {d}", hist)
      o.case(hist)
      for t in ts: t.cancel()
      await asyncio.gather(*ts, return_exceptions=True)

def run(o):
  o.part("named topics", lambda o: run_async(topics(o)), 0.6)
  o.part("secrets", lambda o: run_async(secrets(o)), 0.4)
