"""Python regular expressions as SMT regular languages (the part without back-references and look-around)."""
import re
try: from re import _parser as sp, _constants as sc
except ImportError: import sre_parse as sp, sre_constants as sc
import z3

class NoRegex(Exception): pass
S = z3.StringSort()
def lit(c): return z3.Re(z3.StringVal(chr(c)))
def rng(a, b): return z3.Range(chr(a), chr(b)) if a != b else lit(a)
def anychar(): return z3.AllChar(z3.ReSort(S))
def union(rs): return rs[0] if len(rs) == 1 else z3.Union(*rs)
def concat(rs): return z3.Re("") if not rs else rs[0] if len(rs) == 1 else z3.Concat(*rs)
def cases(c, flags):
  if flags & re.I:
    o = {c, ord(chr(c).lower()) if len(chr(c).lower()) == 1 else c, ord(chr(c).upper()) if len(chr(c).upper()) == 1 else c}
    return union([lit(x) for x in sorted(o)])
  return lit(c)
CAT = {sc.CATEGORY_DIGIT: [(48, 57)], sc.CATEGORY_SPACE: [(9, 13), (32, 32), (28, 31), (0x85, 0x85), (0xa0, 0xa0)], sc.CATEGORY_WORD: [(48, 57), (65, 90), (95, 95), (97, 122)]}

def node(items, flags, first, last):
  """regex of a parsed sequence; anchors only at the outer ends"""
  out = []
  for i, (op, av) in enumerate(items):
    if op is sc.AT:
      if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and first and i == 0 and not flags & re.M: continue
      if av is sc.AT_END and last and i == len(items) - 1 and not flags & re.M: out.append(z3.Option(lit(10))); out.append("end"); continue
      if av is sc.AT_END_STRING and last and i == len(items) - 1: out.append("end"); continue
      raise NoRegex("anchor")
    if op is sc.LITERAL: out.append(cases(av, flags))
    elif op is sc.NOT_LITERAL: out.append(z3.Intersect(anychar(), z3.Complement(cases(av, flags))))
    elif op is sc.ANY: out.append(anychar() if flags & re.S else z3.Intersect(anychar(), z3.Complement(lit(10))))
    elif op is sc.IN:
      neg, us = False, []
      for o, a in av:
        if o is sc.NEGATE: neg = True
        elif o is sc.LITERAL: us.append(cases(a, flags))
        elif o is sc.RANGE:
          us.append(rng(*a))
          if flags & re.I:
            for f in (str.lower, str.upper):
              x, y = f(chr(a[0])), f(chr(a[1]))
              if len(x) == len(y) == 1 and ord(x) <= ord(y) and chr(a[0]).isalpha() and chr(a[1]).isalpha(): us.append(rng(ord(x), ord(y)))
        elif o is sc.CATEGORY and a in CAT: us += [rng(*r) for r in CAT[a]]
        else: raise NoRegex("class")
      u = union(us)
      out.append(z3.Intersect(anychar(), z3.Complement(u)) if neg else u)
    elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
      lo, hi, sub = av
      r = concat(node(list(sub), flags, False, False))
      if hi is sc.MAXREPEAT or hi == sc.MAXREPEAT: out.append(z3.Star(r) if lo == 0 else concat([r] * lo + [z3.Star(r)]))
      else: out.append(z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi))
    elif op is sc.SUBPATTERN: out += node(list(av[3]), flags | av[1], False, False)
    elif op is sc.BRANCH: out.append(union([concat(node(list(b), flags, False, False)) for b in av[1]]))
    else: raise NoRegex(str(op))
  return out

def language(pattern, flags, mode):
  """the texts t for which re.<mode>(pattern, t, flags) finds something"""
  p = sp.parse(pattern, flags)
  flags |= p.state.flags
  items = list(p)
  # a top-level alternative or group may not carry anchors
  out = node(items, flags, True, True)
  end = bool(out) and out[-1] == "end" if out and isinstance(out[-1], str) else False
  out = [x for x in out if not isinstance(x, str)]
  anchored = bool(items) and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING)
  r = concat(out)
  all_ = z3.Star(anychar())
  if mode != "fullmatch" and not end: r = z3.Concat(r, all_)
  if mode == "search" and not anchored: r = z3.Concat(all_, r)
  return r
