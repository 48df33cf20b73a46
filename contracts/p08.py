"""P08: endpoint <-> text. Decimal notation by the SMT theory of strings; the texts Python's int() accepts beyond signed ASCII digits are left open."""
import z3
from pydv.verify import *
from pydv.types import *
from pydv.core import *
from pydv import models as M

U = "streamtasks.net.utils"
def fn(itp, n): return itp.module_attr(itp.loader.module(U), n)
def digit(s): return z3.InRe(s, z3.Concat(z3.Range("0", "9"), z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))))
def colon(s): return z3.Contains(s, z3.StringVal(":"))
def parse(itp, s): return attempt(itp, lambda: itp.call(fn(itp, "str_to_endpoint"), [s]))
def show(itp, ep): return attempt(itp, lambda: itp.call(fn(itp, "endpoint_to_str"), [ep]))
def pair(itp, v):
  v = itp.deref(v)
  if isinstance(v, LocRef): v = tuple(itp.content(v).items)
  return v if isinstance(v, tuple) and len(v) == 2 else None

def s_number(itp):
  a, p = itp.fresh("address", INT), itp.fresh("port", INT)
  itp.assume(a.t >= 0)
  st, s = show(itp, (a, p))
  itp.check("a numeric endpoint is written", st == "ok")
  if st != "ok": return
  st, r = parse(itp, s)
  itp.check("a numeric endpoint is read back", st == "ok" and pair(itp, r) is not None)
  if st != "ok": return
  r = pair(itp, r)
  itp.check("the address is the same number", itp.bz(itp.eq(r[0], a)))
  itp.check("the port is the same number", itp.bz(itp.eq(r[1], p)))

def s_name(itp):
  n, p = itp.fresh("name", STR), itp.fresh("port", INT)
  st, s = show(itp, (n, p))
  bad = z3.Or(colon(n.t), digit(n.t))
  if st != "ok":
    itp.check("refusing is a ValueError", exc_is(itp, s, ValueError))
    itp.check("only names that cannot be read back are refused", bad)
    return
  itp.check("names that cannot be read back are refused", z3.Not(bad))
  st, r = parse(itp, s)
  itp.check("a named endpoint is read back", st == "ok" and pair(itp, r) is not None)
  if st != "ok": return
  r = pair(itp, r)
  itp.check("the name is the same", itp.bz(itp.eq(r[0], n)))
  itp.check("the port is the same", itp.bz(itp.eq(r[1], p)))

def s_validate(itp):
  n = itp.fresh("name", STR)
  st, r = attempt(itp, lambda: itp.call(fn(itp, "validate_address_name"), [n]))
  bad = z3.Or(colon(n.t), digit(n.t))
  itp.check("exactly the names that cannot be read back are refused", bad if st != "ok" else z3.Not(bad))
  if st != "ok": itp.check("with a ValueError", exc_is(itp, r, ValueError))

def s_parse(itp):
  t = itp.fresh("text", STR)
  A, P = itp.fresh_const("before", z3.StringSort()), itp.fresh_const("after", z3.StringSort())
  one = itp.decide(z3.And(colon(t.t), z3.Not(colon(z3.SubString(t.t, z3.IndexOf(t.t, z3.StringVal(":"), 0) + 1, z3.Length(t.t))))))
  if one: itp.assume(z3.And(t.t == z3.Concat(A, z3.StringVal(":"), P), z3.Not(colon(A)), z3.Not(colon(P))))
  st, r = parse(itp, t)
  if st != "ok":
    itp.check("rejecting is a ValueError", exc_is(itp, r, ValueError))
    if one:
      M.int_facts(itp, A); M.int_facts(itp, P)
      itp.check("an address and an integer port are not rejected", z3.Not(z3.And(M.INT_OK(P), z3.Or(z3.Not(digit(A)), M.INT_OK(A)))))
    return
  itp.check("only text with exactly one colon is accepted", one)
  if not one: return
  v = pair(itp, r)
  itp.check("an endpoint comes out", v is not None)
  if v is None: return
  M.int_facts(itp, P); M.int_facts(itp, A)
  itp.check("the port is the integer after the colon", z3.And(M.INT_OK(P), itp.bz(itp.eq(v[1], Sym(M.INT_VAL(P), INT)))))
  a = itp.resolve(v[0])
  if isinstance(a, Sym) and a.ty is INT: itp.check("a number before the colon is the address", z3.And(digit(A), M.INT_OK(A), a.t == M.INT_VAL(A)))
  else: itp.check("a name before the colon is the address", z3.And(z3.Not(digit(A)), itp.bz(itp.eq(a, Sym(A, STR)))))

SCENARIOS = [Scn("numeric endpoint there and back", s_number, [U + ":endpoint_to_str", U + ":str_to_endpoint"]), Scn("named endpoint there and back", s_name, [U + ":endpoint_to_str", U + ":str_to_endpoint", U + ":validate_address_name"]),
  Scn("validate_address_name", s_validate, [U + ":validate_address_name"]), Scn("str_to_endpoint", s_parse, [U + ":str_to_endpoint"])]
ASSUMPTIONS = ["an integer in text is what Python's int() accepts (exact for optionally signed ASCII digits, otherwise left open)", "numeric addresses are not negative"]
