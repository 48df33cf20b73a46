"""P16: connection URLs select the transport, target and cost they name. URLs are taken apart by urllib (assumed)."""
from contracts.net import *

CON = "streamtasks.connection"
Q = MAP(STR, LIST(STR))
HS = MAP(STR, STR)
SCHEMES = {"node": ("UnixConnectionData", "NODE"), "unix": ("UnixConnectionData", "UNIX"), "tcp": ("TCPConnectionData", "TCP"), "ws": ("WebsocketConnectionData", "WEBSOCKET"), "wss": ("WebsocketConnectionData", "WEBSOCKET")}
NODEPATH = z3.Function("node_path", sort(OPT(STR)), z3.StringSort())
def default(itp, n): return itp.getattr(itp.cls_by_qual(CON + ":DEFAULT_COSTS"), n)

def url(itp):
  u = type("U", (), {})()
  u.text = itp.fresh("url", STR)
  u.p = {"scheme": itp.fresh("scheme", STR), "hostname": itp.fresh("hostname", OPT(STR)), "port": itp.fresh("port", OPT(INT)), "username": itp.fresh("username", OPT(STR)), "password": itp.fresh("password", OPT(STR)), "path": itp.fresh("path", STR), "query": itp.fresh("query", STR)}
  for k, v in u.p.items(): itp.attr_models[("purl", k)] = lambda itp_, s, v=v: v
  def parse(itp_, a, k): itp.check("the given URL is the one taken apart", itp.bz(itp.eq(a[0], u.text))); return itp.fresh("purl", ANY("purl"))
  itp.ext_models["urllib.parse.urlparse"] = itp.ext_models["urllib.parse.urlsplit"] = parse
  u.q = itp.fresh_const("params", sort(Q))
  k = z3.Const("k!qs", z3.StringSort())
  itp.assume(M.mk_forall([k], z3.Implies(sel(m_dom(Q, u.q), k), l_len(LIST(STR), sel(m_val(Q, u.q), k)) >= 1), [[sel(m_dom(Q, u.q), k)]]))
  def qs(itp_, a, kw):
    itp.check("the parameters are the query's", itp.bz(itp.eq(a[0], u.p["query"])) and not kw and len(a) == 1)
    return itp.new_cont("map", Q, u.q)
  itp.ext_models["urllib.parse.parse_qs"] = qs
  itp.models[CON + ":get_node_socket_path"] = lambda itp_, a, kw: Sym(NODEPATH(itp.to_term(a[0] if a else kw["node_name"], OPT(STR))), STR)
  u.single = lambda x: z3.And(sel(m_dom(Q, u.q), x), l_len(LIST(STR), sel(m_val(Q, u.q), x)) == 1)
  u.first = lambda x: sel(l_arr(LIST(STR), sel(m_val(Q, u.q), x)), z3.IntVal(0))
  return u
def is_none(t): return t == sort(OPT(STR)).constructor(0)()

def s_extract(case): return lambda itp: extract(itp, case)
def extract(itp, case):
  u = url(itp)
  ck = z3.StringVal("cost")
  # which cost the query gives: none, a positive number, zero, other plain text, text beyond ASCII
  single, plain, asc = case > 0, case == 1, case < 4
  digits = z3.InRe(u.first(ck), z3.Plus(M.DIG)); ascii_ = z3.InRe(u.first(ck), z3.Star(z3.Range(chr(0), chr(127))))
  itp.assume(u.single(ck) if single else z3.Not(u.single(ck)))
  if case == 1: itp.assume(z3.And(digits, z3.StrToInt(u.first(ck)) > 0))
  if case == 2: itp.assume(z3.And(digits, z3.StrToInt(u.first(ck)) == 0))
  if case == 3: itp.assume(z3.And(z3.Not(digits), ascii_))
  if case == 4: itp.assume(z3.And(z3.Not(digits), z3.Not(ascii_)))
  st, r = attempt(itp, lambda: itp.call(itp.module_attr(itp.loader.module(CON), "extract_connection_data_from_url"), [u.text]))
  scheme = u.p["scheme"].t
  known = z3.Or(*[scheme == z3.StringVal(s) for s in list(SCHEMES) + [""]])
  if st != "ok":
    itp.check("refused: with a ValueError", exc_is(itp, r, ValueError))
    itp.check("refused: only another scheme, or a cost that is no number", z3.BoolVal(True) if case == 4 else z3.Not(known)); return
  o = itp.deref(r)
  name = itp.class_of(o).name
  itp.check("every other scheme is refused", known)
  for s, (cls, dflt) in SCHEMES.items():
    on = scheme == z3.StringVal(s)
    itp.check(f"{s}: selects its own transport", z3.Implies(on, z3.BoolVal(name == cls)))
    if name != cls: continue
    cost = itp.to_term(itp.getattr(o, "cost"), INT)
    itp.check(f"{s}: the cost of the query", z3.Implies(on, cost == z3.StrToInt(u.first(ck)))) if plain else None
    itp.check(f"{s}: its default cost otherwise", z3.Implies(on, cost == itp.to_term(default(itp, dflt), INT))) if asc and not plain else None
    if s == "unix": itp.check("unix: the path it names", z3.Implies(on, itp.bz(itp.eq(itp.getattr(o, "path"), u.p["path"]))))
    if s == "node":
      h = itp.to_term(u.p["hostname"], OPT(STR))
      e = z3.If(itp.bz(itp.eq(u.p["hostname"], "")), sort(OPT(STR)).constructor(0)(), h)
      itp.check("node: the node it names", z3.Implies(on, itp.to_term(itp.getattr(o, "path"), STR) == NODEPATH(e)))
    if s in ("tcp", "ws", "wss"):
      itp.check(f"{s}: the host and port it names", z3.Implies(on, itp.bz(itp.conj([itp.eq(itp.getattr(o, "hostname"), u.p["hostname"]), itp.eq(itp.getattr(o, "port"), u.p["port"])]))))
    if s in ("ws", "wss"): itp.check(f"{s}: encrypted exactly if so named", z3.Implies(on, itp.bz(itp.eq(itp.getattr(o, "secure"), s == "wss"))))
  named = z3.And(known, scheme != z3.StringVal(""))
  itp.check("a bare name selects the node of that name", z3.Implies(scheme == z3.StringVal(""), z3.BoolVal(name == "UnixConnectionData") if name != "UnixConnectionData" else z3.And(itp.to_term(itp.getattr(o, "path"), STR) == NODEPATH(itp.to_term(u.text, OPT(STR))), itp.to_term(itp.getattr(o, "cost"), INT) == itp.to_term(default(itp, "NODE"), INT))))
  hs = itp.deref(itp.getattr(o, "handshake_data"))
  m = itp.to_term(hs, HS)
  x = itp.fresh_const("x", z3.StringSort())
  U, P = itp.to_term(u.p["username"], OPT(STR)), itp.to_term(u.p["password"], OPT(STR))
  isu, isp = x == z3.StringVal("username"), x == z3.StringVal("password")
  itp.check("handshake: exactly the credentials and the single-valued parameters", z3.Implies(named, sel(m_dom(HS, m), x) == z3.Or(z3.And(isu, z3.Not(is_none(U))), z3.And(isp, z3.Not(is_none(P))), u.single(x))))
  itp.check("handshake: parameters as given", z3.Implies(z3.And(named, u.single(x)), sel(m_val(HS, m), x) == u.first(x)))
  for nm, t in (("username", u.p["username"]), ("password", u.p["password"])):
    k = z3.StringVal(nm)
    itp.check(f"handshake: {nm} as given", z3.Implies(z3.And(named, z3.Not(u.single(k)), z3.Not(is_none(itp.to_term(t, OPT(STR))))), itp.bz(itp.eq(Sym(sel(m_val(HS, m), k), STR), t))))

def s_none(itp):
  url(itp)
  st, r = attempt(itp, lambda: itp.call(itp.module_attr(itp.loader.module(CON), "extract_connection_data_from_url"), [None]))
  itp.check("no URL selects the own node", st == "ok" and itp.class_of(itp.deref(r)).name == "UnixConnectionData")
  if st != "ok": return
  itp.check("no URL: its path", itp.to_term(itp.getattr(r, "path"), STR) == NODEPATH(sort(OPT(STR)).constructor(0)()))
  itp.check("no URL: its cost", itp.bz(itp.eq(itp.getattr(r, "cost"), default(itp, "NODE"))))

def data(itp):
  """connection data of each transport"""
  k = itp.choose(3)
  cost = itp.fresh("cost", INT); itp.assume(cost.t != 0)
  hs = itp.new_cont("map", HS, itp.fresh_const("data", sort(HS)))
  f = {"cost": cost, "handshake_data": hs}
  if k == 0: f["path"] = itp.fresh("path", STR)
  else: f.update(hostname=itp.fresh("hostname", OPT(STR)), port=itp.fresh("port", OPT(INT)))
  if k == 2: f["secure"] = itp.fresh("secure", BOOL)
  o = itp.new_obj(itp.cls_by_qual(CON + ":" + ["UnixConnectionData", "TCPConnectionData", "WebsocketConnectionData"][k]), f)
  t = itp.fresh("url", STR)
  def ex(itp_, a, kw): itp.check("the given URL decides", itp.bz(itp.eq(a[0], t))); return o
  itp.models[CON + ":extract_connection_data_from_url"] = ex
  return k, f, t, o

def s_connect(itp):
  k, f, t, o = data(itp)
  log = lambda *x: itp.st.ghost.__setitem__("log", itp.st.ghost["log"] + (x,))
  itp.st.ghost["log"] = ()
  itp.ext_models["asyncio.Lock"] = lambda itp_, a, kw: itp.fresh("lock", ANY("lock"))
  rd, wr, so = itp.fresh("reader", ANY("reader")), itp.fresh("writer", ANY("writer")), itp.fresh("socket", ANY("socket"))
  def opener(nm, res):
    def m(itp_, a, kw):
      def th(): log("open", nm, tuple(a)); return res
      return CoroV(th)
    return m
  itp.ext_models["asyncio.open_unix_connection"] = opener("unix", (rd, wr))
  itp.ext_models["asyncio.open_connection"] = opener("tcp", (rd, wr))
  itp.ext_models["websockets.connect"] = opener("ws", so)
  itp.models[CON + ":RawStreamConnection.close"] = itp.models[CON + ":RawWebsocketConnection.close"] = lambda itp_, a, kw: None
  def init(itp_, a, kw):
    log("init", a[0], a[1])
    if itp.choose(2): log("rejected"); itp.raise_py(ConnectionError, "rejected")
  itp.models[CON + ":RawConnection.init_client"] = init
  st, r = attempt(itp, lambda: itp.await_(itp.call(itp.module_attr(itp.loader.module(CON), "connect"), [t])))
  L = itp.st.ghost["log"]; kinds = [x[0] for x in L]
  itp.check("connect: opens one connection and presents itself", kinds[:2] == ["open", "init"] and kinds.count("open") == 1 and kinds.count("init") == 1)
  if kinds[:2] != ["open", "init"]: return
  itp.check("connect: over the transport named", L[0][1] == ["unix", "tcp", "ws"][k])
  a = L[0][2]
  if k == 0: itp.check("connect: to the path named", len(a) == 1 and itp.bz(itp.eq(a[0], f["path"])))
  if k == 1: itp.check("connect: to the host and port named", len(a) == 2 and itp.bz(itp.conj([itp.eq(a[0], f["hostname"]), itp.eq(a[1], f["port"])])))
  if k == 2: itp.check("connect: to the address of the data", len(a) == 1 and itp.bz(itp.eq(a[0], itp.getattr(o, "uri"))))
  conn = itp.deref(L[1][1])
  itp.check("connect: presents the given handshake data", itp.deref(L[1][2]) == itp.deref(f["handshake_data"]))
  itp.check("connect: over the opened connection", itp.class_of(conn).name == ("RawWebsocketConnection" if k == 2 else "RawStreamConnection") and itp.bz(itp.eq(itp.getattr(conn, "socket"), so) if k == 2 else itp.conj([itp.eq(itp.getattr(conn, "_reader"), rd), itp.eq(itp.getattr(conn, "_writer"), wr)])))
  if "rejected" in kinds: itp.check("connect: a rejected connection gives no link", st != "ok"); return
  itp.check("connect: gives a link", st == "ok" and itp.class_of(itp.deref(r)).name == "RawConnectionLink")
  if st == "ok": itp.check("connect: of the given cost over that connection", itp.deref(itp.getattr(r, "_connection")) == conn and itp.bz(itp.eq(itp.getattr(r, "_cost"), f["cost"])))

def s_server(itp):
  k, f, t, o = data(itp)
  itp.ext_models["asyncio.Event"] = lambda itp_, a, kw: itp.fresh("event", ANY("event"))
  itp.ext_models["platform.system"] = lambda itp_, a, kw: "Linux"
  itp.models["streamtasks.net:Switch"] = lambda itp_, a, kw: itp.fresh("switch", ANY("switch"))
  itp.models["streamtasks.utils:AsyncTrigger"] = lambda itp_, a, kw: itp.fresh("trigger", ANY("trig"))
  st, r = attempt(itp, lambda: itp.call(itp.module_attr(itp.loader.module(CON), "create_server"), [t]))
  itp.check("create_server: a server of the transport named", st == "ok" and itp.class_of(itp.deref(r)).name == ["UnixSocketServer", "TCPSocketServer", "WebsocketServer"][k])
  if st != "ok": return
  if k == 0: itp.check("create_server: at the path named", itp.bz(itp.eq(itp.getattr(r, "path"), f["path"])))
  else: itp.check("create_server: at the host and port named", itp.bz(itp.conj([itp.eq(itp.getattr(r, "host"), f["hostname"]), itp.eq(itp.getattr(r, "port"), f["port"])])))
  itp.check("create_server: of the given cost", itp.bz(itp.eq(itp.getattr(r, "cost"), f["cost"])))
  itp.check("create_server: with the given handshake data", itp.deref(itp.getattr(r, "handshake_data")) == itp.deref(f["handshake_data"]))

def s_uri(itp):
  h, p, s = itp.fresh("hostname", STR), itp.fresh("port", INT), itp.fresh("secure", BOOL)
  o = itp.new_obj(itp.cls_by_qual(CON + ":WebsocketConnectionData"), {"cost": 1, "handshake_data": itp.new_dict({}), "hostname": h, "port": p, "secure": s})
  t = itp.to_term(itp.getattr(o, "uri"), STR)
  itp.assume(p.t >= 0)
  itp.check("websocket address: scheme, host and port", t == z3.Concat(z3.If(s.t, z3.StringVal("wss"), z3.StringVal("ws")), z3.StringVal("://"), h.t, z3.StringVal(":"), z3.IntToStr(p.t)))

SCENARIOS = [*[Scn("extract_connection_data_from_url: " + n, s_extract(i), [CON + ":extract_connection_data_from_url"]) for i, n in enumerate(["no cost given", "a positive cost", "cost zero", "a cost that is no number", "a cost beyond ASCII"])], Scn("no url", s_none, [CON + ":extract_connection_data_from_url"]), Scn("connect", s_connect, [CON + ":connect"]), Scn("create_server", s_server, [CON + ":create_server"]), Scn("WebsocketConnectionData.uri", s_uri, [CON + ":WebsocketConnectionData.uri"])]
ASSUMPTIONS = ["urllib.parse takes a URL apart into scheme, host, port, path, credentials and query as its documentation says; every parameter parse_qs yields has at least one value", "str.isdigit is exact on ASCII text and open otherwise", "the server runs on a system with unix sockets"]
