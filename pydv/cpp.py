"""C++ functions as Python text for the verifier, from clang's typed AST of the real file (all casts and conversions are clang's).
Integers are mathematical with every conversion and every overflow explicit (_u8, _u64, _i32, ...); pointers are (block, offset)
pairs, read and written only through _ld/_st, which the contract gives bounds.  Anything outside the subset is refused."""
import json, subprocess, glob, os, sysconfig

class Refused(Exception): pass
def include_flags(venv="/opt/venv"):
  fl = []
  for d in glob.glob(venv + "/lib/python3*/site-packages/pybind11/include"): fl += ["-I", d]
  r = subprocess.run([venv + "/bin/python", "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], capture_output=True, text=True)
  return fl + ["-I", r.stdout.strip()]
def dump(path, name):
  r = subprocess.run(["clang++", "-std=c++17", "-DNDEBUG", *include_flags(), "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + name, path], capture_output=True, text=True, timeout=120)
  if r.returncode: raise Refused("the file does not compile: " + r.stderr[:400])
  d, s, i, out = json.JSONDecoder(), r.stdout, 0, []
  while True:
    while i < len(s) and s[i].isspace(): i += 1
    if i >= len(s): return out
    o, i = d.raw_decode(s, i); out.append(o)

UNS = {"unsigned char": "_u8", "unsigned short": "_u16", "unsigned int": "_u32", "unsigned long": "_u64", "unsigned long long": "_u64"}
SIG = {"signed char": "_i8", "char": "_i8", "short": "_i16", "int": "_i32", "long": "_i64", "long long": "_i64"}
KEEP = {"LValueToRValue", "NoOp", "FunctionToPointerDecay", "UserDefinedConversion", "ConstructorConversion", "BitCast", "ArrayToPointerDecay", "DerivedToBase", "UncheckedDerivedToBase"}
def ty(n):
  t = n.get("type", {}); t = t.get("desugaredQualType", t.get("qualType", ""))
  return t.replace("const ", "").strip()
class Fn:
  def __init__(self, tr, node):
    self.tr, self.node, self.names, self.used = tr, node, {}, {}
  def name(self, v):
    i = v["id"]
    if i not in self.names:
      n = v.get("name") or "unnamed"; k = self.used.get(n, 0); self.used[n] = k + 1
      self.names[i] = n if not k else f"{n}_{k + 1}"
    return self.names[i]
  def text(self):
    ps = [c for c in self.node["inner"] if c["kind"] == "ParmVarDecl"]
    for p in ps:
      t = p["type"]["qualType"]
      if "&" in t and "const" not in t and not any(x in t for x in ("vector", "string", "bytes")): raise Refused("parameter by reference: " + t)
    body = next((c for c in self.node["inner"] if c["kind"] == "CompoundStmt"), None)
    if body is None: raise Refused("function without a body: " + self.node["name"])
    return [f"def {self.node['name']}({', '.join(self.name(p) for p in ps)}):"] + self.block(body, 1)
  # ---- statements
  def block(self, s, ind, cont=()):
    out = []
    for c in (s.get("inner", []) if s["kind"] == "CompoundStmt" else [s]): out += self.stmt(c, ind, cont)
    return out or ["  " * ind + "pass"]
  def stmt(self, s, ind, cont=()):
    p = "  " * ind; k = s["kind"]
    if k in ("NullStmt",): return []
    if k == "CompoundStmt": return self.block(s, ind, cont)
    if k == "DeclStmt":
      out = []
      for v in s["inner"]:
        if v["kind"] in ("TypeAliasDecl", "TypedefDecl", "UsingDecl", "StaticAssertDecl"): continue
        if v["kind"] != "VarDecl": raise Refused(v["kind"])
        if "&" in v["type"]["qualType"] and "const" not in v["type"]["qualType"] and not any(x in ty(v) for x in ("vector", "string", "bytes")): raise Refused("reference " + v["type"]["qualType"])
        if v.get("inner") and v.get("init"): out.append(p + f"{self.name(v)} = {self.ex(v['inner'][0])}")
        else: self.name(v)
      return out
    if k == "IfStmt":
      inner = list(s["inner"]); out = []
      if s.get("hasInit"): out += self.stmt(inner.pop(0), ind, cont)
      if s.get("hasVar"): raise Refused("condition declaring a variable")
      out += [p + f"if {self.ex(inner[0])}:"] + self.block(inner[1], ind + 1, cont)
      if len(inner) > 2: out += [p + "else:"] + self.block(inner[2], ind + 1, cont)
      return out
    if k == "ForStmt":
      init, _, cond, inc, body = s["inner"]
      out = self.stmt(init, ind) if init.get("kind") else []
      step = self.stmt(inc, ind + 1) if inc.get("kind") else []
      return out + [p + f"while {self.ex(cond) if cond.get('kind') else 'True'}:"] + self.block(body, ind + 1, step) + step
    if k == "WhileStmt":
      if s.get("hasVar"): raise Refused("condition declaring a variable")
      return [p + f"while {self.ex(s['inner'][0])}:"] + self.block(s["inner"][1], ind + 1)
    if k == "CXXForRangeStmt":
      rng = next(v for d in s["inner"] if d.get("kind") == "DeclStmt" for v in d["inner"] if v.get("name", "").startswith("__range"))
      var = [v for d in s["inner"] if d.get("kind") == "DeclStmt" for v in d["inner"]][-1]
      return [p + f"for {self.name(var)} in {self.ex(rng['inner'][0])}:"] + self.block(s["inner"][-1], ind + 1)
    if k == "ContinueStmt": return ["  " * ind + x.lstrip() for x in cont] + [p + "continue"]
    if k == "BreakStmt": return [p + "break"]
    if k == "ReturnStmt": return [p + ("return " + self.ex(s["inner"][0]) if s.get("inner") else "return")]
    return self.effect(s, ind)
  def effect(self, s, ind):
    p = "  " * ind; k = s["kind"]
    if k in ("ExprWithCleanups", "ParenExpr"): return self.effect(s["inner"][0], ind)
    if k in ("CXXFunctionalCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "ImplicitCastExpr") and (s.get("castKind") == "ToVoid" or ty(s) == "void"):
      return [] if self.strip(s["inner"][0])["kind"] in ("IntegerLiteral", "DeclRefExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr") else self.effect(s["inner"][0], ind)
    if k == "BinaryOperator" and s["opcode"] == ",": return self.effect(s["inner"][0], ind) + self.effect(s["inner"][1], ind)
    if k == "BinaryOperator" and s["opcode"] == "=": return [p + self.assign(s["inner"][0], self.ex(s["inner"][1]))]
    if k == "CompoundAssignOperator":
      l, r = s["inner"]; op = s["opcode"][:-1]; old = self.ex(l)
      if ty(l).endswith("*"): v = f"_padd({old}, {'' if op == '+' else '-'}({self.ex(r)}))"
      else:
        ct = s.get("computeResultType", {}); ct = ct.get("desugaredQualType", ct.get("qualType", "int"))
        v = self.conv(ty(l), self.conv(ct, self.arith(op, old, self.ex(r), ct)))
      return [p + self.assign(l, v)]
    if k == "UnaryOperator" and s["opcode"] in ("++", "--"):
      l = s["inner"][0]; old = self.ex(l); d = "1" if s["opcode"] == "++" else "-1"
      v = f"_padd({old}, {d})" if ty(l).endswith("*") else self.conv(ty(l), f"{old} + {d}" if d == "1" else f"{old} - 1")
      return [p + self.assign(l, v)]
    if k in ("CXXMemberCallExpr", "CallExpr"): return [p + self.ex(s)]
    raise Refused("statement " + k)
  def assign(self, l, v):
    l = self.strip(l); k = l["kind"]
    if k == "DeclRefExpr": return f"{self.ref(l)} = {v}"
    if k == "ArraySubscriptExpr": return f"_st({self.ex(l['inner'][0])}, {self.ex(l['inner'][1])}, {v})"
    if k == "UnaryOperator" and l["opcode"] == "*": return f"_st({self.ex(l['inner'][0])}, 0, {v})"
    if k == "CXXOperatorCallExpr" and self.opname(l) == "operator[]":
      o, i = l["inner"][1:]
      if "string" in ty(o): return f"_st(_data({self.ex(o)}), {self.ex(i)}, _u8({v}))"
    raise Refused("assignment to " + k)
  def strip(self, n):
    while n["kind"] in ("ParenExpr", "ExprWithCleanups"): n = n["inner"][0]
    return n
  # ---- expressions
  def ref(self, n):
    d = n["referencedDecl"]
    if d["kind"] in ("VarDecl", "ParmVarDecl"):
      if d["id"] in self.names: return self.names[d["id"]]
      raise Refused("outer variable " + d.get("name", "?"))
    raise Refused("reference to " + d["kind"])
  def opname(self, n):
    c = n["inner"][0]
    while c["kind"] != "DeclRefExpr": c = c["inner"][0]
    return c["referencedDecl"]["name"]
  def conv(self, t, x):
    if t in UNS or t in SIG: return f"{(UNS.get(t) or SIG.get(t))}({x})"
    if t == "bool": return f"({x}) != 0"
    raise Refused("type " + t)
  def arith(self, op, a, b, t):
    if op == "*": return f"_mul({a}, {b})"
    if op in ("+", "-"): return f"({a}) {op} ({b})"
    if op == "/": return f"_div({a}, {b})"
    if op == "%": return f"_mod({a}, {b})"
    if op in ("<<", ">>", "&", "|", "^"): return f"_bits('{op}', {a}, {b})"
    raise Refused("operator " + op)
  def ex(self, n):
    k = n["kind"]
    if k in ("ParenExpr",): return f"({self.ex(n['inner'][0])})"
    if k in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr"): return self.ex(n["inner"][0])
    if k == "IntegerLiteral": return n["value"]
    if k == "CharacterLiteral": return str(n["value"])
    if k == "CXXBoolLiteralExpr": return str(bool(n["value"]))
    if k == "DeclRefExpr": return self.ref(n)
    if k == "UnaryExprOrTypeTraitExpr": raise Refused("sizeof")
    if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr"):
      c = n.get("castKind"); x = n["inner"][0]
      if c in KEEP: return self.ex(x)
      if c == "IntegralCast": return self.conv(ty(n), self.ex(x))
      if c == "IntegralToBoolean": return f"({self.ex(x)}) != 0"
      raise Refused("cast " + str(c))
    if k == "UnaryOperator":
      o, x = n["opcode"], n["inner"][0]
      if o == "!": return f"not ({self.ex(x)})"
      if o == "-": return self.conv(ty(n), f"-({self.ex(x)})")
      if o == "+": return self.ex(x)
      if o == "~": return self.conv(ty(n), f"-1 - ({self.ex(x)})")
      if o == "*": return self.load(f"_ld({self.ex(x)}, 0)", n)
      if o == "&":
        x = self.strip(x)
        if x["kind"] == "ArraySubscriptExpr": return f"_padd({self.ex(x['inner'][0])}, {self.ex(x['inner'][1])})"
        if x["kind"] == "UnaryOperator" and x["opcode"] == "*": return self.ex(x["inner"][0])
        if x["kind"] == "CXXOperatorCallExpr" and self.opname(x) == "operator[]" and "string" in ty(x["inner"][1]): return f"_padd(_data({self.ex(x['inner'][1])}), {self.ex(x['inner'][2])})"
      raise Refused("operator " + o)
    if k == "ArraySubscriptExpr": return self.load(f"_ld({self.ex(n['inner'][0])}, {self.ex(n['inner'][1])})", n)
    if k == "ConditionalOperator": return f"(({self.ex(n['inner'][1])}) if ({self.ex(n['inner'][0])}) else ({self.ex(n['inner'][2])}))"
    if k == "BinaryOperator":
      o, (a, b) = n["opcode"], n["inner"]; A, B = self.ex(a), self.ex(b)
      if o in ("&&", "||"): return f"({A}) {'and' if o == '&&' else 'or'} ({B})"
      pa, pb = ty(a).endswith("*"), ty(b).endswith("*")
      if o in ("<", ">", "<=", ">=", "==", "!="): return f"_pdiff({A}, {B}) {o} 0" if pa and pb else f"({A}) {o} ({B})"
      if pa and pb and o == "-": return f"_pdiff({A}, {B})"
      if pa and o in "+-": return f"_padd({A}, {'' if o == '+' else '-'}({B}))"
      if pb and o == "+": return f"_padd({B}, {A})"
      return self.conv(ty(n), self.arith(o, A, B, ty(n)))
    if k == "CXXConstructExpr":
      args = [c for c in n.get("inner", []) if c["kind"] != "CXXDefaultArgExpr"]; t = ty(n)
      if "vector" in t and not args: return "[]"
      if "vector" in t and len(args) == 1 and "vector" in ty(args[0]): return self.ex(args[0])
      if "basic_string<" in t and len(args) == 2: return f"_string({self.ex(args[0])}, {self.ex(args[1])})"
      if "bytes" in t and len(args) == 1: return f"_bytes({self.ex(args[0])})" if "bytes" not in ty(args[0]) else self.ex(args[0])
      if "basic_string_view" in t and len(args) == 1: return self.ex(args[0])
      raise Refused(f"construction of {t} from {len(args)} values")
    if k == "CXXMemberCallExpr":
      m = n["inner"][0]; args = [self.ex(c) for c in n["inner"][1:] if c["kind"] != "CXXDefaultArgExpr"]; o = m["inner"][0]; t, name = ty(o), m["name"]
      if name.startswith("operator basic_string_view"): return self.ex(o)
      if "vector" in t and name == "size": return f"len({self.ex(o)})"
      if "vector" in t and name == "empty": return f"(len({self.ex(o)}) == 0)"
      if "vector" in t and name in ("push_back", "emplace_back"): return f"{self.ex(o)}.append({args[0]})"
      if "vector" in t and name == "at": return f"{self.ex(o)}[{args[0]}]"
      if "vector" in t and name == "reserve": return "None"
      if "vector" in t and name in ("front",): return f"{self.ex(o)}[0]"
      if "string" in t and name in ("size", "length"): return f"_size({self.ex(o)})"
      if "string" in t and name == "data": return f"_data({self.ex(o)})"
      raise Refused(f"{t}::{name}")
    if k == "CXXOperatorCallExpr" and self.opname(n) == "operator[]":
      o, i = n["inner"][1:]
      if "vector" in ty(o): return f"_at({self.ex(o)}, {self.ex(i)})"
      if "string" in ty(o): return self.load(f"_ld(_data({self.ex(o)}), {self.ex(i)})", n)
    if k == "CallExpr":
      c = n["inner"][0]
      while c["kind"] != "DeclRefExpr": c = c["inner"][0]
      d = c["referencedDecl"]; args = [self.ex(x) for x in n["inner"][1:] if x["kind"] != "CXXDefaultArgExpr"]
      if d["name"] in ("min", "max") and len(args) == 2: return f"{d['name']}({args[0]}, {args[1]})"
      if d["name"] == "max" and not args: return {"unsigned long": str(2**64 - 1), "unsigned int": str(2**32 - 1), "int": str(2**31 - 1), "long": str(2**63 - 1)}[ty(n)]
      if d["kind"] == "FunctionDecl": self.tr.need(d["name"]); return f"{d['name']}({', '.join(args)})"
      raise Refused("call of " + d["name"])
    raise Refused("expression " + k)
  def load(self, x, n): return f"_i8({x})" if ty(n) in ("char", "signed char") else x

class Translation:
  """text of the function `name` of a C++ file and of all functions of it that it calls"""
  def __init__(self, path, name):
    self.path, self.todo, self.done, self.lines = path, [name], set(), []
    while self.todo:
      f = self.todo.pop(0)
      if f in self.done: continue
      self.done.add(f)
      ns = [o for o in dump(path, f) if o["kind"] == "FunctionDecl" and o.get("name") == f and any(c["kind"] == "CompoundStmt" for c in o.get("inner", []))]
      if len(ns) != 1: raise Refused(f"{len(ns)} definitions of {f}")
      self.lines += Fn(self, ns[0]).text() + [""]
    pre = ["def %s(*a): pass" % n for n in ("_u8", "_u16", "_u32", "_u64", "_i8", "_i16", "_i32", "_i64", "_mul", "_div", "_mod", "_bits", "_ld", "_st", "_padd", "_pdiff", "_string", "_bytes", "_size", "_data", "_at")]
    self.text = "\n".join(pre + self.lines)
  def need(self, f):
    if f not in self.done: self.todo.append(f)
