"""Values, state, path exploration and solver access."""
import select, signal
import ast, time, subprocess, tempfile, os
import z3
from .types import *

class Unsupported(Exception): pass
class PathEnd(Exception):
  """this path is infeasible / deliberately discarded"""
class IterEnd(PathEnd):
  """the end of the one iteration of an event loop (rule for loops with a stated invariant)"""
class PyRaise(Exception):
  def __init__(self, value): self.value = value
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class ReturnEx(Exception):
  def __init__(self, value): self.value = value

class Sym:
  __slots__ = ("t", "ty")
  def __init__(self, t, ty): self.t, self.ty = t, ty
  def __repr__(self): return f"<{self.ty} {self.t}>"
class LocRef:
  """reference to a mutable container: root ('cell', addr) | ('fld', cls, field, refterm), path of ('k', key) / ('f', field)"""
  __slots__ = ("root", "path")
  def __init__(self, root, path=()): self.root, self.path = root, path
  def __repr__(self): return f"<loc {self.root}{self.path}>"
class ObjRef:
  __slots__ = ("addr",)
  def __init__(self, addr): self.addr = addr
  def __eq__(self, o): return isinstance(o, ObjRef) and o.addr == self.addr
  def __hash__(self): return hash(("obj", self.addr))
  def __repr__(self): return f"<obj {self.addr}>"
class Poison:
  def __init__(self, why): self.why = why
class FnV:
  def __init__(self, node, module, closure, cls, qual, defaults=(), kwdefaults=None):
    self.node, self.module, self.closure, self.cls, self.qual = node, module, closure, cls, qual
    self.defaults, self.kwdefaults = defaults, kwdefaults or {}
  @property
  def is_async(self): return isinstance(self.node, ast.AsyncFunctionDef)
  def __repr__(self): return f"<fn {self.qual}>"
class BoundV:
  def __init__(self, fn, self_): self.fn, self.self_ = fn, self_
class BuiltinMethod:
  def __init__(self, recv, name): self.recv, self.name = recv, name
  def __repr__(self): return f"<builtin {self.name}>"
class NativeV:
  """a Python callable model: fn(interp, args, kwargs)"""
  def __init__(self, fn, name="native"): self.fn, self.name = fn, name
  def __repr__(self): return f"<native {self.name}>"
class ClassV:
  def __init__(self, name, module, node): self.name, self.module, self.node = name, module, node; self._attrs = None
  @property
  def qual(self): return f"{self.module.name}:{self.name}"
  def __repr__(self): return f"<class {self.qual}>"
class ExtV:
  """something imported from outside the repository, by dotted path"""
  __slots__ = ("path",)
  def __init__(self, path): self.path = path
  def __eq__(self, o): return isinstance(o, ExtV) and o.path == self.path
  def __hash__(self): return hash(("ext", self.path))
  def __repr__(self): return f"<ext {self.path}>"
class ExcCls:
  """builtin / external exception class, backed by a python class"""
  def __init__(self, py): self.py = py
  def __eq__(self, o): return isinstance(o, ExcCls) and o.py is self.py
  def __hash__(self): return hash(self.py)
  def __repr__(self): return f"<exc {self.py.__name__}>"
class ExcV:
  def __init__(self, py, args=(), attrs=None): self.py, self.args, self.attrs = py, tuple(args), attrs or {}
  def __repr__(self): return f"<{self.py.__name__} instance>"
class EnumV:
  def __init__(self, cls, name, value): self.cls, self.name, self.value = cls, name, value
  def __eq__(self, o): return isinstance(o, EnumV) and o.cls is self.cls and o.name == self.name
  def __hash__(self): return hash((self.cls.qual, self.name))
  def __repr__(self): return f"<{self.cls.name}.{self.name}>"
class CoroV:
  def __init__(self, thunk, name=""): self.thunk, self.name = thunk, name
class TaskV:
  """asyncio task / future around a coroutine: awaiting it runs the coroutine"""
  def __init__(self, coro): self.coro = coro
class GenV:
  """generator expression (lazy)"""
  def __init__(self, node, fid, module, cls): self.node, self.fid, self.module, self.cls = node, fid, module, cls
class ViewV:
  def __init__(self, loc, kind): self.loc, self.kind = loc, kind
class RangeV:
  def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step
class IterV:
  """lazy iterator adaptors: kind in chain/enumerate/zip/iter/reversed"""
  def __init__(self, kind, args): self.kind, self.args = kind, args
class ModuleV:
  def __init__(self, mod): self.mod = mod
class SuperV:
  def __init__(self, cls, self_): self.cls, self.self_ = cls, self_
class SliceV:
  def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step
class TypeV:
  """python builtin type (int, str, ...)"""
  def __init__(self, name): self.name = name
  def __eq__(self, o): return isinstance(o, TypeV) and o.name == self.name
  def __hash__(self): return hash(("ty", self.name))
  def __repr__(self): return f"<type {self.name}>"

class ObjC:
  __slots__ = ("cls", "fields")
  def __init__(self, cls, fields): self.cls, self.fields = cls, fields
class ContC:
  """symbolic container content (ty may be None for an empty container of unknown element type)"""
  __slots__ = ("kind", "ty", "t", "frozen")
  def __init__(self, kind, ty, t, frozen=False): self.kind, self.ty, self.t, self.frozen = kind, ty, t, frozen
class PyListC:
  __slots__ = ("items",)
  def __init__(self, items): self.items = tuple(items)
class PyDictC:
  __slots__ = ("d",)
  def __init__(self, d): self.d = d
class FwdC:
  __slots__ = ("loc",)
  def __init__(self, loc): self.loc = loc
class DeadC:
  __slots__ = ("why",)
  def __init__(self, why): self.why = why

class State:
  __slots__ = ("cells", "frames", "farr", "ghost", "pc", "counter", "addr")
  def __init__(self):
    self.cells, self.frames, self.farr, self.ghost, self.pc, self.counter, self.addr = {}, {}, {}, {}, [], 0, 0
  def copy(self):
    s = State.__new__(State)
    s.cells = dict(self.cells)
    s.frames = {k: dict(v) for k, v in self.frames.items()}
    s.farr = dict(self.farr); s.ghost = dict(self.ghost); s.pc = list(self.pc)
    s.counter, s.addr = self.counter, self.addr
    return s
  def formulas(self): return [f for f, _ in self.pc]

class Outcome:
  def __init__(self, st, kind, value=None, yields=None): self.st, self.kind, self.value = st, kind, value
  def __repr__(self): return f"<outcome {self.kind} {self.value}>"

class Stats:
  def __init__(self): self.solver_s = 0.0; self.queries = 0; self.by = {}

class Other:
  """another solver running on the same query"""
  def __init__(self, name, p, path): self.name, self.p, self.path, self.data, self.done, self.fd = name, p, path, b"", False, p.stdout.fileno()
  def read(self):
    chunk = os.read(self.fd, 65536)
    if chunk: self.data += chunk
    else: self.done = True
  def answer(self): return self.data.decode(errors="replace").split("\n")[0].strip() if self.done or b"\n" in self.data else ""

class Solver:
  """discharges goals; every query is a fresh solver so the result does not depend on history"""
  def __init__(self, timeout_ms=8000, cvc5=True):
    self.timeout, self.stats, self.use_cvc5 = timeout_ms, Stats(), cvc5
    self._cache = {}
  def _run(self, fs, timeout, mbqi=True, others=()):
    """every query runs in a forked child: z3 does not always honour its timeout, the child is ended when it does not"""
    t = time.time()
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        s = z3.Solver()
        s.set("timeout", timeout); s.set("random_seed", 7)
        if not mbqi: s.set("smt.mbqi", False)
        for f in fs: s.add(f)
        r = s.check()
        out = str(r) + "\n" + (str(s.model())[:20000] if r == z3.sat else s.reason_unknown() if r == z3.unknown else "")
        os.write(wr, out.encode()[:60000])
      except BaseException: pass
      finally: os._exit(0)
    os.close(wr)
    data, end = b"", t + timeout / 1000 * 1.5 + 0.5
    try:
      while True:
        open_ = [o for o in others if not o.done]
        ready, _, _ = select.select([rd] + [o.fd for o in open_], [], [], max(0, end - time.time()))
        for o in open_:
          if o.fd in ready: o.read()
        if any(o.answer() == "unsat" for o in others): break   # another solver has the proof
        if rd not in ready:
          if ready: continue
          break                                                # out of time
        chunk = os.read(rd, 65536)
        if not chunk: break
        data += chunk
    finally:
      os.close(rd)
      try: os.kill(pid, signal.SIGKILL)
      except ProcessLookupError: pass
      os.waitpid(pid, 0)
    self.stats.solver_s += time.time() - t; self.stats.queries += 1
    word, _, rest = data.decode(errors="replace").partition("\n")
    return {"sat": z3.sat, "unsat": z3.unsat}.get(word, z3.unknown), rest or "timeout"
  def feasible(self, fs):
    """False only if definitely infeasible"""
    key = ("f", tuple(f.get_id() for f in fs))
    hit = self._cache.get(key)
    if hit is not None: return hit[0]
    r, _ = self._run(fs, 80, mbqi=False)
    res = r != z3.unsat
    self._cache[key] = (res, list(fs))
    return res
  def prove(self, fs, goal, timeout=None, full=True):
    """-> ('proved', backend, None) | ('refuted', backend, model) | ('unknown', reason, None)"""
    g = z3.simplify(goal)
    if z3.is_true(g): return ("proved", "simplify", None)
    q = list(fs) + [z3.Not(goal)]
    key = ("p", tuple(f.get_id() for f in fs), goal.get_id(), full)
    hit = self._cache.get(key)
    if hit is not None: return hit[0]
    res = self._prove(q, timeout or self.timeout, full)
    self._cache[key] = (res, q)
    return res
  def quick(self, fs, goal, timeout=700):
    """True if proved by a cheap attempt"""
    g = z3.simplify(goal)
    if z3.is_true(g): return True
    key = ("q", tuple(f.get_id() for f in fs), goal.get_id())
    hit = self._cache.get(key)
    if hit is None:
      q = list(fs) + [z3.Not(goal)]
      hit = (self._run(q, timeout, mbqi=False)[0] == z3.unsat, q)
      self._cache[key] = hit
    return hit[0]
  def _prove(self, q, timeout, full=True):
    r, s = self._run(q, timeout // 40, mbqi=False)
    if r == z3.unsat: return ("proved", "z3", None)
    others = self._start_others(q, timeout // 2) if self.use_cvc5 else []
    try:
      r, s = self._run(q, timeout // 8, mbqi=False, others=others)
      if r == z3.unsat: return ("proved", "z3", None)
      t = time.time()
      by = self._wait_others(others, t + timeout / 2000 + 5)
      self.stats.solver_s += time.time() - t
      if by is not None: return ("proved", by, None)
    finally: self._end_others(others)
    if not full: return ("unknown", s, None)
    r, s = self._run(q, timeout)
    if r == z3.unsat: return ("proved", "z3", None)
    if r == z3.sat: return ("refuted", "z3", s)
    return ("unknown", s, None)
  def _start_others(self, q, timeout):
    s = z3.Solver()
    for f in q: s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix=".smt2")
    with os.fdopen(fd, "w") as f: f.write(txt)
    cmds = {"z3-4.8": ["/usr/bin/z3", "smt.mbqi=false", f"-t:{timeout}", p]}
    if "(_ map" not in txt and "lambda" not in txt: cmds["cvc5"] = ["cvc5", f"--tlimit={timeout}", "--strings-exp", p]
    out = []
    for name, cmd in cmds.items():
      try: out.append(Other(name, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL), p))
      except OSError: pass
    if not out: os.unlink(p)
    return out
  def _wait_others(self, others, end):
    """the name of the first one that proves the goal"""
    while True:
      for o in others:
        if o.answer() == "unsat": return o.name
      open_ = [o for o in others if not o.done]
      if not open_ or time.time() >= end: return None
      ready, _, _ = select.select([o.fd for o in open_], [], [], max(0, end - time.time()))
      for o in open_:
        if o.fd in ready: o.read()
  def _end_others(self, others):
    for o in others:
      if o.p.poll() is None: o.p.kill()
      o.p.wait(); o.p.stdout.close()
      try: os.unlink(o.path)
      except FileNotFoundError: pass

