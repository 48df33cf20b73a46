"""P25: the calculator. The grammar's text is taken from the module; Lark gives, for each operator, the production it is parsed as; the transformer's method
of that name is executed symbolically on arbitrary operands."""
import ast as A_
from contracts.tasks import *

C = "streamtasks.system.tasks.calculator"
MAPT = MAP(STR, REAL)
UF1 = {n: z3.Function("math." + n, z3.RealSort(), z3.RealSort()) for n in "sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh log log2 log10 exp sqrt".split()}
UF2 = {"atan2": z3.Function("math.atan2", z3.RealSort(), z3.RealSort(), z3.RealSort())}
POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
b2r = lambda f: z3.If(f, z3.RealVal(1), z3.RealVal(0))
t5 = lambda x: x > z3.RealVal("0.5")
def rmod(x, y): return x - y * z3.ToReal(z3.ToInt(x / y))
BIN = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y, "%": rmod, "**": POW,
  "&": lambda x, y: b2r(z3.And(t5(x), t5(y))), "|": lambda x, y: b2r(z3.Or(t5(x), t5(y))), "^": lambda x, y: b2r(t5(x) != t5(y)),
  ">": lambda x, y: b2r(x > y), "<": lambda x, y: b2r(x < y), ">=": lambda x, y: b2r(x >= y), "<=": lambda x, y: b2r(x <= y), "==": lambda x, y: b2r(x == y), "!=": lambda x, y: b2r(x != y)}
UN = {"-": lambda x: -x, "+": lambda x: x, "!": lambda x: b2r(z3.Not(t5(x)))}

def grammar(itp):
  from lark import Lark
  mod = itp.loader.module(C)
  for n in A_.walk(mod.tree):
    if isinstance(n, A_.Call) and isinstance(n.func, A_.Name) and n.func.id == "Lark" and n.args and isinstance(n.args[0], A_.Constant):
      return Lark(n.args[0].value, **{k.arg: A_.literal_eval(k.value) for k in n.keywords})
  raise Unsupported("no literal grammar")
def production(itp, text):
  t = grammar(itp).parse(text)
  while t.data in ("start", "group") and len(t.children) == 1: t = t.children[0]
  return t
def transformer(itp, ctx): return itp.new_obj(itp.cls_by_qual(C + ":CalculatorEvalTransformer"), {"context": ctx})
def setup25(itp):
  E = itp.ext_models
  for n, f in UF1.items(): E["math." + n] = lambda i, a, k, f=f: Sym(f(itp.to_term(a[0], REAL)), REAL)
  for n, f in UF2.items(): E["math." + n] = lambda i, a, k, f=f: Sym(f(itp.to_term(a[0], REAL), itp.to_term(a[1], REAL)), REAL)
  E["$pow"] = lambda i, a, k: Sym(POW(itp.to_term(a[0], REAL), itp.to_term(a[1], REAL)), REAL)
def method(itp, t, name, args):
  if not any(isinstance(n, (A_.FunctionDef, A_.Assign)) and (getattr(n, "name", None) == name or any(isinstance(x, A_.Name) and x.id == name for x in getattr(n, "targets", []))) for c in itp.mro(itp.class_of(t)) if hasattr(c, "node") for n in c.node.body):
    itp.check(f"the transformer knows the production {name}", False)
    return "raise", None
  return attempt(itp, lambda: itp.call(itp.getattr(t, name), [itp.new_list(args)]))

def s_op(op, n):
  def s(itp):
    setup25(itp)
    try: p = production(itp, f"x {op} y" if n == 2 else f"{op} x")
    except Exception as e: itp.check(f"the operator {op} is part of the language", False); return
    t = transformer(itp, itp.fresh("context", ANY("context")))
    x, y = itp.fresh("x", REAL), itp.fresh("y", REAL)
    # operands are positional: the names in the parsed text tell which is which
    names = [str(c.children[0]) if hasattr(c, "children") and len(c.children) == 1 else None for c in p.children]
    itp.check(f"{op}: parsed with its operands in order", names == ["x", "y"][:n])
    st, r = method(itp, t, p.data, [x, y][:n])
    if op in ("/", "%"):
      if st != "ok": itp.check(f"{op}: fails only for zero", y.t == 0); return
    itp.check(f"{op}: defined for all values", st == "ok")
    if st == "ok": itp.check(f"{op}: means what it says", real(itp, itp.resolve(r)) == (BIN[op](x.t, y.t) if n == 2 else UN[op](x.t)))
  return s
def s_if(itp):
  p = production(itp, "c ? x : y")
  t = transformer(itp, itp.fresh("context", ANY("context")))
  a = [itp.fresh(n, REAL) for n in "cxy"]
  itp.check("c ? x : y: parsed with its operands in order", [str(c.children[0]) for c in p.children] == ["c", "x", "y"])
  st, r = method(itp, t, p.data, a)
  itp.check("c ? x : y: x when c is above 0.5, else y", z3.BoolVal(False) if st != "ok" else real(itp, itp.resolve(r)) == z3.If(t5(a[0].t), a[1].t, a[2].t))
def s_leaf(itp):
  """parentheses and the whole formula: the inner value; a number: its value; a variable: the value given for it, pi or e"""
  setup25(itp)
  m = itp.fresh("values", MAPT)
  ctx = itp.call(itp.cls_by_qual(C + ":CalculatorEvalContext"), [m])
  t = itp.call(itp.cls_by_qual(C + ":CalculatorEvalTransformer"), [ctx])
  x = itp.fresh("x", REAL)
  for text in ("(x)",):
    p = grammar(itp).parse(text)
    node = p
    while node.data != "variable":
      st, r = method(itp, t, node.data, [x])
      itp.check(f"{node.data}: keeps the inner value", st == "ok" and itp.bz(itp.eq(r, x)))
      node = node.children[0]
  v = itp.fresh("name", STR)
  d = itp.to_term(m, MAPT)
  if itp.choose(2):
    p = production(itp, "3.5")
    st, r = method(itp, t, p.data, [p.children[0].value])
    itp.check("a number is its value", z3.BoolVal(False) if st != "ok" else real(itp, itp.resolve(r)) == z3.RealVal("3.5"))
  else:
    p = production(itp, "x")
    nm = [v, "pi", "e"][itp.choose(3)]
    k = itp.to_term(nm, STR)
    st, r = method(itp, t, p.data, [nm])
    given = sel(m_dom(MAPT, d), k); other = z3.Or(k == "pi", k == "e")
    if st != "ok": itp.check("a variable: only an unknown one fails", z3.And(z3.Not(given), z3.Not(other))); return
    r = real(itp, itp.resolve(r))
    itp.check("a variable: the value given for it", z3.Implies(given, r == sel(m_val(MAPT, d), k)))
    if isinstance(nm, str): itp.check(f"{nm}: its usual value unless given", z3.Implies(z3.Not(given), z3.And(r > z3.RealVal("3.14159265358979") if nm == "pi" else r > z3.RealVal("2.71828182845904"), r < z3.RealVal("3.14159265358980") if nm == "pi" else r < z3.RealVal("2.71828182845905"))))
def s_func(itp):
  setup25(itp)
  ctx = itp.call(itp.cls_by_qual(C + ":CalculatorEvalContext"), [itp.new_dict({})])
  t = transformer(itp, ctx)
  x, y, w = [itp.fresh(n, REAL) for n in "xyw"]
  fs = list(UF1) + list(UF2) + ["floor", "ceil", "abs", "min", "max"]
  n = fs[itp.choose(len(fs))]
  args = [x, y] if n in ("atan2",) else [x, y, w] if n in ("min", "max") else [x]
  p = production(itp, f"{n}({', '.join('xyw'[:len(args)])})")
  itp.check(f"{n}: parsed as a call of it with its arguments", str(p.children[0]) == n and [str(c.children[0]) for c in p.children[1:]] == list("xyw"[:len(args)]))
  st, r = method(itp, t, p.data, [n] + args)
  itp.check(f"{n}: can be called", st == "ok")
  if st != "ok": return
  r = real(itp, itp.resolve(r))
  if n in UF1: g = r == UF1[n](x.t)
  elif n in UF2: g = r == UF2[n](x.t, y.t)
  elif n == "floor": g = r == z3.ToReal(z3.ToInt(x.t))
  elif n == "ceil": g = r == -z3.ToReal(z3.ToInt(-x.t))
  elif n == "abs": g = r == z3.If(x.t < 0, -x.t, x.t)
  else:
    c = (lambda a: r <= a) if n == "min" else (lambda a: r >= a)
    g = z3.And(*[c(a.t) for a in args], z3.Or(*[r == a.t for a in args]))
  itp.check(f"{n}: its usual meaning", g)

EV = z3.Function("value_of_formula", z3.ArraySort(z3.StringSort(), z3.BoolSort()), z3.ArraySort(z3.StringSort(), z3.RealSort()), z3.RealSort())
def s_task(itp):
  setup25(itp)
  T = Topics(itp)
  VErr = I.EXT_EXC["lark.exceptions.VisitError"]
  ctl = itp.fresh("values0", MAPT); d0 = itp.to_term(ctl, MAPT)
  name, dflt = itp.fresh("var_name", STR), itp.fresh("default", REAL)
  itp.assume(sel(m_dom(MAPT, d0), name.t)); itp.assume(z3.And(name.t != "pi", name.t != "e"))
  itp.st.ghost["fault"] = False; itp.st.ghost["eval"] = None
  ast_ = itp.fresh("formula", ANY("tree"))
  def transform(itp_, self, a, k):
    itp.check("the task's own formula is evaluated", itp.bz(itp.eq(a[0], ast_)))
    m = itp.getattr(itp.getattr(self, "context"), "input_map")
    # every variable is looked up as arbitrary key
    itp.st.ghost["eval"] = m
    if itp.choose(2): itp.st.ghost["fault"] = True; itp.raise_py(VErr, "faulty")
    return Sym(z3.Const("result", z3.RealSort()), REAL)
  itp.models["ext:lark.Transformer.transform"] = transform
  out = T.out()
  o = itp.new_obj(itp.cls_by_qual(C + ":CalculatorTask"), {"formula_ast": ast_, "out_topic": out, "var_values": itp.new_cont("map", MAPT, d0), "client": itp.fresh("client", ANY("client"))})
  def after():
    last, msg = itp.st.ghost["last"], itp.st.ghost["msg"]
    d1 = itp.to_term(itp.getattr(o, "var_values"), MAPT)
    x = itp.fresh_const("key", z3.StringSort())
    has, val = lambda d: sel(m_dom(MAPT, d), x), lambda d: sel(m_val(MAPT, d), x)
    itp.check("values of other inputs stay", z3.Implies(x != name.t, z3.And(has(d0) == has(d1), val(d0) == val(d1))))
    itp.check("there is a value for every input", z3.Implies(has(d0), has(d1)))
    mine = sel(m_val(MAPT, d1), name.t)
    S = T.sent()
    if last[0] == "control":
      itp.check("a pause resets its input to the default", mine == dflt.t)
      itp.check("a pause sends nothing", not S)
      return
    if msg[0] == "bad":
      itp.check("what is no number changes nothing", mine == sel(m_val(MAPT, d0), name.t)); itp.check("what is no number sends nothing", not S)
      return
    itp.check("a number becomes the value of its input", itp.bz(itp.eq(itp.getattr(msg[1], "value"), Sym(mine, REAL))))
    m = itp.st.ghost["eval"]
    itp.check("the formula is evaluated", m is not None)
    if m is None: return
    k = Sym(x, STR)
    st, r = attempt(itp, lambda: M.getitem(itp, m, k))
    itp.check("it is evaluated from the latest values of all inputs", z3.Implies(has(d1), z3.BoolVal(False) if st != "ok" else real(itp, itp.resolve(r)) == val(d1)))
    if itp.st.ghost["fault"]: itp.check("a faulty evaluation sends nothing", not S); return
    itp.check("one result is sent for every number", len(S) == 1 and itp.bz(itp.eq(S[0][1], out)))
    if len(S) == 1: itp.check("the result has the number's time and the formula's value", T.number(S[0][2], itp.getattr(msg[1], "timestamp"), z3.Const("result", z3.RealSort())))
  T.iteration(lambda: itp.await_(itp.call(itp.getattr(o, "run_input"), [T.topic(), name, dflt])), after)
X = C + ":CalculatorEvalTransformer"
SCENARIOS = [Scn(f"operator {op}", s_op(op, 2), [X]) for op in BIN] + [Scn(f"unary {op}", s_op(op, 1), [X]) for op in UN] + [Scn("conditional", s_if, [X]), Scn("leaves", s_leaf, [X, C + ":CalculatorEvalContext"]),
  Scn("functions", s_func, [X + ".func", C + ":CalculatorEvalContext"]), Scn("the task", s_task, [C + ":CalculatorTask.run_input", C + ":CalculatorTask.send_value"])]
ASSUMPTIONS = ["floats as mathematical reals; the functions of math as uninterpreted functions of their name", "Lark's Transformer.transform folds the tree with the method named by each production, and reports a failing method as VisitError"]
BOUNDED = ["precedence, associativity and the shape of the parse tree (Lark): all pairs of operators and random formulas against a reference evaluation"]
