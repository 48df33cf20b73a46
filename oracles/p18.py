RULE = "random patterns are matched against paths built from them and against mutations of these; random nested routers get requests of every kind; a scratch directory with links leading in and out is served and asked for every kind of path; a case is one pattern and path, one request to a router, or one requested path"
import asyncio, os, re, shutil, tempfile
from lib import attempt, run_async
from streamtasks.asgiserver import PathPattern, ASGIRouter, ASGINext, NoHandlerError, static_files_handler, http_context_handler, websocket_context_handler, transport_context_handler, path_rewrite_handler

LIT = ["/", "/a", "/api/", "-", ".", "x", "/files/", "ab", "/b/", "_", "a"]
VAL = ["", "a", "b", "ab", "aba", "x.y", "a-b", "/", "a/b", "/a/", "x_y", "-", "a.", "ü", "7", "aa", "//"]
async def aattempt(fn):
  try: return "ok", await fn()
  except (KeyboardInterrupt, asyncio.CancelledError): raise
  except BaseException as e: return "raise", e
def segments(rng):
  parts, params = [rng.choice(["/", "/a", "/x/", ""])], []
  for _ in range(rng.randint(0, 4)):
    params.append((rng.choice(["p", "q", "r", "p", None]), rng.random() < 0.35)); parts.append(rng.choice(LIT + ["", ""]))
  return parts, params
def text(parts, params):
  t = parts[0]
  for (n, s), p in zip(params, parts[1:]): t += "{" + (n or "") + ("*" if s else "") + "}" + p
  return t
def spell(parts, params, vals): return parts[0] + "".join(v + p for v, p in zip(vals, parts[1:]))
def regex(parts, params):
  seen = {}; r = re.escape(parts[0])
  for i, ((n, s), p) in enumerate(zip(params, parts[1:])):
    if n is not None and n in seen: r += f"(?P=g{seen[n]})"
    else:
      if n is not None: seen[n] = i
      r += f"(?P<g{i}>" + (".*?" if s else "[^/]*?") + ")"
    r += re.escape(p)
  return re.compile(r, re.S), seen
def ask_path(rng, parts, params):
  vals, by = [], {}
  for n, s in params:
    v = by.get(n) if n is not None and n in by and rng.random() < 0.7 else rng.choice(VAL)
    if not s and rng.random() < 0.8: v = v.replace("/", "")
    if n is not None: by[n] = v
    vals.append(v)
  path = spell(parts, params, vals)
  r = rng.random()
  if r < 0.15: path += rng.choice(["/", "x", "/a", "a", parts[-1]])
  elif r < 0.25 and path: i = rng.randrange(len(path)); path = path[:i] + path[i + 1:]
  elif r < 0.35: i = rng.randint(0, len(path)); path = path[:i] + rng.choice("/a.x-b") + path[i:]
  elif r < 0.4: path = "".join(rng.choice(LIT + VAL) for _ in range(rng.randint(0, 5)))
  return path
def pattern(rng):
  while True:
    parts, params = segments(rng); t = text(parts, params)
    if not t.endswith("/"): return parts, params, t
    parts[-1] = parts[-1].rstrip("/")
    t = text(parts, params)
    if not t.endswith("/"): return parts, params, t

def fits(o, t, parts, params, path, m, inp):
  """the values m spell path with the pattern"""
  rx, seen = regex(parts, params)
  names = {n for n, _ in params if n is not None}
  if not o.expect(isinstance(m, dict) and set(m) == names and all(isinstance(v, str) for v in m.values()), "names", f"{t!r} matched {path!r} gives {m!r}", inp): return
  bad = [n for n, s in params if n is not None and not s and "/" in m[n]]
  o.expect(not bad, "slash", f"{t!r} matched with {path!r}: {m!r} lets {bad} span segments", inp)
  # some spelling with exactly these values
  r = re.escape(parts[0])
  for (n, s), p in zip(params, parts[1:]): r += (re.escape(m[n]) if n is not None else ".*?" if s else "[^/]*?") + re.escape(p)
  o.expect(re.fullmatch(r, path, re.S) is not None, "spelling", f"{t!r} accepts {path!r} with {m!r}, which does not spell it", inp)
  if len(names) == len({i for i, (n, _) in enumerate(params)}) or all(n is not None for n, _ in params):
    st, x = attempt(lambda: PathPattern(t).construct(dict(m)))
    o.expect(st == "ok" and x == path, "construct", f"{t!r} accepts {path!r} with {m!r}, but substituting them gives {x!r}", inp)

def matching(o):
  for _ in o.loop(at_least=1500):
    rng = o.rng; parts, params, t = pattern(rng)
    st, p = attempt(lambda: PathPattern(t))
    if not o.expect(st == "ok", "parse", f"pattern {t!r} is refused: {p!r}", t): continue
    path = ask_path(rng, parts, params); inp = [t, path]
    st, m = attempt(lambda: p.match(path))
    if not o.expect(st == "ok", "match-raises", f"matching {path!r} against {t!r} raises {m!r}", inp): continue
    if m is not None: fits(o, t, parts, params, path, m, inp)
    elif not params: o.expect(path != t, "literal", f"{t!r} does not accept itself", inp)
    o.case(inp)

class Got(Exception): pass
def routing(o):
  async def once():
    rng = o.rng; log = []; hit = []
    def handler(name, kind, pat, methods, nest):
      async def h(scope, receive, send):
        hit.append((name, kind, pat, methods, dict(scope)))
      return h
    def router(depth):
      r = ASGIRouter(); flat = []
      for _ in range(rng.randint(0, 3)):
        k = rng.random(); parts, params, t = pattern(rng) if rng.random() < 0.7 else rng.choice(pool)
        if depth and k < 0.3:
          sub, f = router(depth - 1); r.add_handler(sub); flat += f; continue
        name = len(log); log.append(t)
        if k < 0.45:
          ms = rng.sample(["get", "POST", "Put", "delete"], rng.randint(1, 3)); h = handler(name, "http", (parts, params, t), {m.upper() for m in ms}, None)
          if rng.random() < 0.5: r.add_http_route(h, t, ms)
          else: r.http_route(t, ms)(h)
          flat.append((name, {"http"}, {m.upper() for m in ms}, t))
        elif k < 0.6:
          m = rng.choice(["get", "post", "put", "delete", "patch", "head", "options"]); h = handler(name, "http", (parts, params, t), {m.upper()}, None)
          getattr(r, m)(t)(h); flat.append((name, {"http"}, {m.upper()}, t))
        elif k < 0.8:
          h = handler(name, "websocket", (parts, params, t), None, None); r.websocket_route(t)(h) if rng.random() < 0.5 else r.add_websocket_route(h, t); flat.append((name, {"websocket"}, None, t))
        else:
          h = handler(name, "any", (parts, params, t), None, None); r.transport_route(t)(h) if rng.random() < 0.5 else r.add_transport_route(h, t); flat.append((name, {"http", "websocket"}, None, t))
      return r, flat
    pool = [pattern(rng) for _ in range(3)]
    r, flat = router(2)
    outer = rng.random() < 0.5
    async def last(scope, receive, send): hit.append(("outer", None, None, None, dict(scope)))
    for _ in range(3):
      hit.clear()
      src = rng.choice(pool) if not flat or rng.random() < 0.5 else None
      if src is None:
        t = rng.choice(flat)[3]; q = PathPattern(t); parts, params = q.parts, q.params
      else: parts, params, t = src
      path = ask_path(rng, parts, params); typ = rng.choice(["http", "http", "websocket", "lifespan"])
      scope = {"type": typ, "path": path, "extra": 3}
      if typ == "http": scope["method"] = rng.choice(["GET", "POST", "PUT", "DELETE", "PATCH"])
      if rng.random() < 0.5: scope["state"] = {"k": 1}
      if outer: scope["state"] = {**scope.get("state", {}), "nextFn": last}
      before = {**scope, **({"state": dict(scope["state"])} if "state" in scope else {})}
      want = next((f for f in flat if typ in f[1] and (typ != "http" or f[2] is None or scope["method"] in f[2]) and PathPattern(f[3]).match(path) is not None), None)
      inp = [[(f[0], sorted(f[1]), f[2] and sorted(f[2]), f[3]) for f in flat], {k: v for k, v in before.items() if k != "state"}, outer]
      async def rx(): return {"type": "http.disconnect"}
      async def tx(e): pass
      st, x = await aattempt(lambda: r(scope, rx, tx))
      o.expect(scope == before, "scope-changed", f"the scope of the request is changed from {before!r} to {scope!r}", inp)
      if want is None:
        if outer: o.expect(st == "ok" and [h[0] for h in hit] == ["outer"], "fall-through", f"a request no route accepts reaches {[h[0] for h in hit]} ({x!r}) instead of the next handler", inp)
        else: o.expect(st != "ok" and isinstance(x, NoHandlerError) and not hit, "unhandled", f"a request no route accepts gives {x!r}, reaches {[h[0] for h in hit]}", inp)
      else:
        if o.expect(st == "ok" and [h[0] for h in hit] == [want[0]], "route", f"request for {path!r} reaches {[h[0] for h in hit]} ({x!r}) instead of route {want[0]}", inp):
          q = PathPattern(want[3]); sc = hit[0][4]; pr = sc.get("state", {}).get("params")
          fits(o, want[3], hit[0][2][0], hit[0][2][1], path, pr, inp)
          o.expect({k: v for k, v in sc.items() if k != "state"} == {k: v for k, v in before.items() if k != "state"} and ("k" not in before.get("state", {}) or sc["state"].get("k") == 1), "passed", "the handler did not get what the request had", inp)
      o.case(inp)
  for _ in o.loop(at_least=150): run_async(once())

def files(o):
  root = tempfile.mkdtemp(prefix="p18_")
  try:
    async def once():
      rng = o.rng; base = tempfile.mkdtemp(dir=root); pub, out = os.path.join(base, "pub"), os.path.join(base, "pub_secret")
      os.makedirs(os.path.join(pub, "d", "e")); os.makedirs(os.path.join(out, "d"))
      def put(*p):
        f = os.path.join(*p)
        with open(f, "w") as fd: fd.write("content of " + os.path.relpath(f, base))
        return f
      ins = [put(pub, "a.txt"), put(pub, "d", "b.html"), put(pub, "d", "e", "index.html")]; outs = [put(out, "s.txt"), put(out, "index.html"), put(out, "d", "index.html"), put(base, "top.txt")]
      if rng.random() < 0.5: ins.append(put(pub, "index.html"))
      os.makedirs(os.path.join(pub, "f"), exist_ok=True)
      for link, to in [("out", out), ("l.txt", outs[0]), ("in", os.path.join(pub, "d")), ("f/index.html", outs[1]), ("up", base), ("lin.txt", ins[0]), ("gone", os.path.join(base, "none"))]: os.symlink(to, os.path.join(pub, link))
      serve = rng.random() < 0.3 and os.path.join(base, "via") or pub
      if serve != pub: os.symlink(pub, serve)
      idx = rng.choice([["index.html"], [], ["b.html", "index.html"], ["lin.txt", "l.txt", "index.html"]])
      h = static_files_handler(serve, idx)
      for _ in range(20):
        segs = [rng.choice(["a.txt", "d", "e", "f", "b.html", "index.html", "out", "in", "l.txt", "lin.txt", "s.txt", "..", "..", ".", "", "up", "pub", "pub_secret", "top.txt", "gone", base, out, "%2e%2e", "..\\..", "//", outs[0], "~"]) for _ in range(rng.randint(0, 5))]
        path = rng.choice(["/", "", "//", "\\", "/\\"]) + "/".join(segs); ev = []; inp = [path, idx, serve != pub]; inp = [i.replace(base, "<base>") if isinstance(i, str) else i for i in inp]
        async def rx(): return {"type": "http.disconnect"}
        async def tx(e): ev.append(e)
        st, x = await aattempt(lambda: h({"type": "http", "method": "GET", "path": path, "headers": []}, rx, tx))
        body = b"".join(e.get("body", b"") for e in ev).decode(errors="replace")
        ok = ["content of " + os.path.relpath(f, base) for f in ins]
        code = [e["status"] for e in ev if e["type"] == "http.response.start"]
        o.expect(not (code == [200] and body not in ok) and not any(("content of " + os.path.relpath(f, base)) in body for f in outs), "outside", f"asking for {inp[0]!r} gives {body!r}, which is no file of the directory", inp)
        o.expect(code in ([200], [404]) or st != "ok", "answer", f"asking for {inp[0]!r} gives {code}", inp)
        o.case(inp)
      shutil.rmtree(base)
    for _ in o.loop(at_least=8): run_async(once())
  finally: shutil.rmtree(root, ignore_errors=True)

def run(o):
  o.part("matching", matching, 0.4); o.part("routing", routing, 0.4); o.part("files", files, 0.2)
