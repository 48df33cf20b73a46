"""request handlers: the function that registers them is run from source up to the server's run(), then a handler is called on arbitrary state"""
import ast
import z3
from pydv.verify import *
from pydv.types import *
from pydv.core import *
from pydv import models as M
from pydv import interp as I

FS, SS, FR = "streamtasks.client.fetch:FetchServer", "streamtasks.client.signal:SignalServer", "streamtasks.client.fetch:FetchRequest"
VE = I.EXT_EXC["pydantic.ValidationError"]

def ann_type(itp, n, module):
  """type of an annotated field, or None for one that is left abstract"""
  if n is None: return None
  if isinstance(n, ast.Constant):
    if n.value is None: return NONE
    if isinstance(n.value, str): return ann_type(itp, ast.parse(n.value, mode="eval").body, module)
  if isinstance(n, ast.Name):
    t = {"int": INT, "str": STR, "bool": BOOL, "float": REAL, "bytes": BYTES, "Any": ANY("payload"), "UUID4": STR, "UUID": STR}.get(n.id)
    if t is not None: return t
    return ANY("v_" + n.id)
  if isinstance(n, ast.BinOp): return UNION(ann_type(itp, n.left, module), ann_type(itp, n.right, module))
  if isinstance(n, ast.Subscript):
    h = ast.unparse(n.value)
    a = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
    ts = [ann_type(itp, x, module) for x in a]
    if h == "Optional": return OPT(ts[0])
    if h == "Union": return UNION(*ts)
    if h in ("list", "List", "Iterable"): return LIST(ts[0])
    if h in ("set", "Set"): return SET(ts[0])
    if h in ("dict", "Dict"): return MAP(ts[0], ts[1])
    if h in ("tuple", "Tuple"): return TUP(*ts)
    if h in ("Literal",): return STR
  return ANY("v_" + "".join(c for c in ast.unparse(n) if c.isalnum()))

def arbitrary(itp, cls, tag=""):
  """an instance of a pydantic model with arbitrary well-typed fields"""
  vals = {}
  for name, d, owner in itp.fields_of(cls):
    node = next(n.annotation for n in owner.node.body if isinstance(n, ast.AnnAssign) and n.target.id == name)
    sub = None
    if isinstance(node, ast.Name):
      try: sub = itp.module_attr(owner.module, node.id)
      except Exception: sub = None
    ov = itp.st.ghost.get("field:" + cls.name + "." + name)
    vals[name] = ov if ov is not None else arbitrary(itp, sub, tag + name + ".") if isinstance(sub, ClassV) and itp.is_model(sub) else itp.fresh(tag + name, ann_type(itp, node, owner.module))
  return itp.new_obj(cls, vals)

def decoding(itp, refuse=True, memo=None):
  """pydantic's assumed contract: a validated body has the annotated types, anything else is refused with ValidationError"""
  itp.assumptions.add("pydantic: model_validate refuses a body with ValidationError or yields well-typed fields; model_dump gives the fields")
  def validate(itp_, cls, body):
    body = itp.resolve(body)
    itp.st.ghost["decodes"] = itp.st.ghost.get("decodes", 0) + 1
    if refuse and itp.choose(2): itp.raise_py(VE, "invalid")
    o = arbitrary(itp, cls, cls.name + ".")
    if memo is not None: memo.append(o)
    return o
  itp.decode_any = validate

def capture(itp, run, servers=(FS, SS)):
  """runs `run()` (an async function registering handlers) until a server runs; -> {descriptor: handler}"""
  got = {}
  class Stop(BaseException): pass
  for q in servers:
    name = "srv_" + q.split(":")[1]
    def make(itp_, a, k, name=name): return itp.fresh("server", ANY(name))
    itp.models[q] = make
    def keep(itp_, d, f):
      d = itp.key(d) if not isinstance(d, str) else d
      if d is None: raise Unsupported("a route with an unknown descriptor")
      got[d] = f
    def route(itp_, s, a, k):
      d = a[0] if a else k["descriptor"]
      def deco(itp__, a2, k2): keep(itp, d, a2[0]); return a2[0]
      return NativeV(deco, "route")
    def add(itp_, s, a, k): keep(itp, a[0] if a else k["descriptor"], a[1] if len(a) > 1 else k["func"])
    def go(itp_, s, a, k):
      def th(): raise Stop()
      return CoroV(th)
    itp.any_methods[(name, "route")] = route
    itp.any_methods[(name, "add_route")] = add
    itp.any_methods[(name, "run")] = go
  try: itp.await_(run())
  except Stop: pass
  return got

def request(itp):
  """an arbitrary request whose answers are recorded: ghost 'answers' = ((error?, body), ...)"""
  itp.st.ghost["answers"] = ()
  def ans(err):
    def m(itp_, a, k):
      body = a[1] if len(a) > 1 else k.get("body", k.get("content"))
      itp.st.ghost["answers"] = itp.st.ghost["answers"] + ((err, body),)
      itp.setattr(a[0], "response_sent", True)
      itp.yield_point("send")
    return m
  itp.models[FR + ".respond"] = ans(False)
  itp.models[FR + ".respond_error"] = ans(True)
  return itp.new_obj(itp.cls_by_qual(FR), {"_client": itp.fresh("client", ANY("client")), "_return_endpoint": (itp.fresh("ra", INT), itp.fresh("rp", INT)), "body": itp.fresh("body", ANY("body")), "response_sent": False})

def run_handler(itp, h, *args): return attempt(itp, lambda: itp.await_(itp.call(h, list(args))))
def answers(itp): return itp.st.ghost["answers"]
def body_get(itp, b, key):
  b = itp.deref(b)
  if isinstance(b, LocRef) and isinstance(itp.content(b), PyDictC): return itp.content(b).d.get(key)
  return None
