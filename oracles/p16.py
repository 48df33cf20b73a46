RULE = "URLs are put together from a scheme, credentials, host, port, path and query parameters (single, repeated, cost positive, zero, or no number) and taken apart by the real code; transport, target, handshake data and cost are compared with the parts; connect and create_server get stand-in transports that record what they are given; a case is one URL"
import urllib.parse
from svclib import *
from lib import aattempt, attempt, run_async
from streamtasks import connection as C
from streamtasks.connection import *

D = {"node": 25, "unix": 50, "tcp": 100, "ws": 150, "wss": 150}
KIND = {"node": UnixConnectionData, "unix": UnixConnectionData, "tcp": TCPConnectionData, "ws": WebsocketConnectionData, "wss": WebsocketConnectionData}
def word(rng): return "".join(rng.choice("abcxyz019-") for _ in range(rng.randint(1, 6))).strip("-") or "a"
def make(rng):
  s = rng.choice(list(D))
  u = {"scheme": s, "host": word(rng), "port": rng.choice([None, 1, 8080, 65535]), "user": rng.choice([None, None, word(rng)]), "path": rng.choice(["", "/", "/tmp/x", "/a/b.sock"])}
  u["password"] = rng.choice([None, word(rng)]) if u["user"] is not None else None
  if s == "node": u["port"] = None
  if s == "node" and rng.random() < 0.3: u["host"] = ""; u["user"] = u["password"] = None
  if s == "unix": u["host"], u["port"], u["user"], u["password"] = "", None, None, None; u["path"] = "/" + word(rng) + ".sock"
  q = {}
  for _ in range(rng.choice([0, 1, 2, 3])):
    k = rng.choice(["auth", "a", "b", "username", "password", "cost", "path", "host"])
    q[k] = [rng.choice(["1", "7", "0", "120", "007", "99999", "x", "-3", "1.5", "12a", " 5", "cost"]) if k == "cost" else rng.choice([word(rng), "a b", "ä", "x=y&z", "tcp"]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
  u["query"] = q
  cred = "" if u["user"] is None else u["user"] + ("" if u["password"] is None else ":" + u["password"]) + "@"
  text = f"{s}://{cred}{u['host']}" + ("" if u["port"] is None else f":{u['port']}") + u["path"] + ("?" + urllib.parse.urlencode(q, doseq=True) if q else "")
  return u, text

def expected(u):
  c = u["query"].get("cost", [])
  cost = int(c[0]) if len(c) == 1 and c[0].isascii() and c[0].isdigit() and int(c[0]) > 0 else D[u["scheme"]]
  hs = {k: v for k, v in (("username", u["user"]), ("password", u["password"])) if v is not None}
  hs.update({k: v[0] for k, v in u["query"].items() if len(v) == 1})
  return cost, hs

def urls(o):
  for _ in o.loop(at_least=60):
    u, text = make(o.rng); o.case(text); cost, hs = expected(u)
    st, d = attempt(lambda: extract_connection_data_from_url(text))
    if st != "ok": o.violate("raises", f"{text} is refused: {d!r}", text); continue
    o.expect(type(d) is KIND[u["scheme"]], "transport", f"{text} gives {d}", text)
    o.expect(d.cost == cost, "cost", f"{text} gives cost {d.cost}, not {cost}", text)
    o.expect(dict(d.handshake_data) == hs, "handshake", f"{text} gives {d.handshake_data}, not {hs}", text)
    s = u["scheme"]
    if s == "unix": o.expect(d.path == u["path"], "path", f"{text} gives {d.path}", text)
    elif s == "node": o.expect(d.path == get_node_socket_path(u["host"].lower() or None), "node", f"{text} gives {d.path}", text)
    else: o.expect((d.hostname, d.port) == (u["host"].lower(), u["port"]), "target", f"{text} gives {d.hostname}:{d.port}", text)
    if s in ("ws", "wss"):
      o.expect(d.secure == (s == "wss"), "secure", f"{text} gives secure={d.secure}", text)
      o.expect(d.uri == f"{s}://{u['host'].lower()}:{u['port']}", "uri", f"{text} gives {d.uri}", text)
    n = word(o.rng); st, d = attempt(lambda: extract_connection_data_from_url(n))
    o.expect(st == "ok" and type(d) is UnixConnectionData and d.path == get_node_socket_path(n) and d.cost == D["node"] and d.handshake_data == {}, "bare", f"{n} gives {d!r}", n)
    bad = o.rng.choice(["http", "https", "udp", "tcps", "wsss", "tc", "file", "nodes", "unixx", "w"]) + text[text.index(":"):]
    st, d = attempt(lambda: extract_connection_data_from_url(bad))
    o.expect(st != "ok" and isinstance(d, ValueError), "other-scheme", f"{bad} gives {d!r}", bad)
  st, d = attempt(lambda: extract_connection_data_from_url(None))
  o.expect(st == "ok" and type(d) is UnixConnectionData and d.path == get_node_socket_path(None) and d.cost == 25, "none", f"no URL gives {d!r}", None)

async def opened(o):
  for _ in o.loop(at_least=20):
    u, text = make(o.rng); o.case(text); cost, hs = expected(u); log = []
    rd, wr, so = object(), type("Wr", (), {"close": lambda s: None})(), type("So", (), {"close": lambda s: None})()
    async def unix(*a, **k): log.append(("unix", a)); return rd, wr
    async def tcp(*a, **k): log.append(("tcp", a)); return rd, wr
    async def ws(*a, **k): log.append(("ws", a)); return so
    reject = o.rng.random() < 0.3
    async def init(self, data):
      log.append(("init", dict(data)))
      if reject: raise ConnectionError("no")
    saved = (asyncio.open_unix_connection, asyncio.open_connection, C.websockets.connect, RawConnection.init_client)
    asyncio.open_unix_connection, asyncio.open_connection, C.websockets.connect, RawConnection.init_client = unix, tcp, ws, init
    try: st, l = await aattempt(connect(text), 5)
    finally: asyncio.open_unix_connection, asyncio.open_connection, C.websockets.connect, RawConnection.init_client = saved
    s = u["scheme"]; d = extract_connection_data_from_url(text)
    want = ("unix", (d.path,)) if s in ("unix", "node") else ("tcp", (d.hostname, d.port)) if s == "tcp" else ("ws", (d.uri,))
    o.expect(log == [want, ("init", hs)], "connect", f"{text} opens {log}, not {want} with {hs}", text)
    if reject: o.expect(st != "ok", "rejected", f"{text}: a rejected connection gives {l!r}", text); continue
    o.expect(st == "ok" and l._cost == cost, "link", f"{text} gives {l!r}", text)
    sv = create_server(text)
    o.expect(type(sv) is (UnixSocketServer if s in ("unix", "node") else TCPSocketServer if s == "tcp" else WebsocketServer), "server", f"{text} serves {sv!r}", text)
    o.expect((sv.path == d.path) if s in ("unix", "node") else (sv.host, sv.port) == (d.hostname, d.port), "server-target", f"{text} serves {vars(sv)}", text)
    o.expect(sv.cost == cost and dict(sv.handshake_data) == hs, "server-data", f"{text} serves {vars(sv)}", text)

def run(o):
  o.part("urls taken apart", urls, 0.6)
  o.part("connect and create_server", lambda o: run_async(opened(o)), 0.4)
