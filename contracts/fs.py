"""a file system for contracts: what is on disk after every single effect, under arbitrary paths; a write reaches the disk partly until the file is flushed or closed, os.replace is atomic"""
import z3
from pydv.verify import *
from pydv.types import *
from pydv.core import *
from pydv import models as M
S, B = z3.StringSort(), sort(BYTES)

class Disk:
  """ghost: exists, content by path; `on_effect(itp)` is called after everything that changes the disk"""
  def __init__(self, itp, on_effect=None, failing=True):
    self.itp, self.hook, self.failing = itp, on_effect, failing
    g = itp.st.ghost
    g["exists"], g["disk"] = itp.fresh_const("exists", z3.ArraySort(S, z3.BoolSort())), itp.fresh_const("disk", z3.ArraySort(S, B))
    g["fds"] = {}
    E = itp.ext_models
    E["builtins.open"] = self.open
    E["os.replace"] = E["os.rename"] = self.replace
    E["os.remove"] = E["os.unlink"] = self.remove
    E["os.fsync"] = lambda i, a, k: None
    E["os.path.exists"] = E["os.path.isfile"] = lambda i, a, k: Sym(sel(i.st.ghost["exists"], i.to_term(a[0], STR)), BOOL)
    E["os.makedirs"] = lambda i, a, k: None
    A = itp.any_methods
    for n in ("write", "flush", "fileno", "read", "close", "__enter__", "__exit__"): A[("fd", n)] = getattr(self, "fd_" + n.strip("_"))
  def fail(self):
    if self.failing and self.itp.choose(2): self.itp.raise_py(OSError, "device")
  def put(self, path, content, exists=True):
    g = self.itp.st.ghost
    g["exists"] = z3.Store(g["exists"], path, z3.BoolVal(exists))
    if content is not None: g["disk"] = z3.Store(g["disk"], path, content)
    if self.hook: self.hook(self.itp)
  def path(self, v):
    v = self.itp.resolve(v)
    return self.itp.to_term(v, STR)
  def open(self, itp, a, k):
    p = self.path(a[0]); mode = a[1] if len(a) > 1 else k.get("mode", "r")
    if not isinstance(mode, str): raise Unsupported("open with a symbolic mode")
    if "w" in mode or "x" in mode:
      self.fail()
      self.put(p, z3.Empty(B))
    elif "a" in mode or "+" in mode: raise Unsupported("open mode " + mode)
    elif itp.decide(z3.Not(sel(itp.st.ghost["exists"], p))): itp.raise_py(FileNotFoundError, "no such file")
    fd = itp.fresh("fd", ANY("fd"))
    itp.st.ghost["fds"] = {**itp.st.ghost["fds"], fd.t.get_id(): (p, z3.Empty(B), mode, True)}
    return fd
  def of(self, fd): return self.itp.st.ghost["fds"][fd.t.get_id()]
  def setfd(self, fd, v): self.itp.st.ghost["fds"] = {**self.itp.st.ghost["fds"], fd.t.get_id(): v}
  def fd_write(self, itp, fd, a, k):
    p, buf, mode, op = self.of(fd)
    if not op: itp.raise_py(ValueError, "closed file")
    buf = z3.Concat(buf, itp.to_term(a[0], BYTES))
    self.setfd(fd, (p, buf, mode, op))
    self.put(p, itp.fresh_const("partly_written", B))
    self.fail()
    return None
  def fd_flush(self, itp, fd, a, k):
    p, buf, mode, op = self.of(fd)
    if "w" in mode and op: self.put(p, buf)
  def fd_fileno(self, itp, fd, a, k): return 3
  def fd_read(self, itp, fd, a, k):
    if a and a[0] != -1: raise Unsupported("partial read")
    return Sym(sel(itp.st.ghost["disk"], self.of(fd)[0]), BYTES)
  def fd_close(self, itp, fd, a=(), k={}):
    p, buf, mode, op = self.of(fd)
    self.fd_flush(itp, fd, (), {})
    self.setfd(fd, (p, buf, mode, False))
  def fd_enter(self, itp, fd, a, k): return fd
  def fd_exit(self, itp, fd, a, k): self.fd_close(itp, fd)
  def replace(self, itp, a, k):
    p, q = self.path(a[0]), self.path(a[1])
    if itp.decide(z3.Not(sel(itp.st.ghost["exists"], p))): itp.raise_py(FileNotFoundError, "no such file")
    self.fail()
    c = sel(itp.st.ghost["disk"], p)
    g = itp.st.ghost
    g["exists"] = z3.Store(z3.Store(g["exists"], p, z3.BoolVal(False)), q, z3.BoolVal(True))
    g["disk"] = z3.Store(g["disk"], q, c)
    if self.hook: self.hook(itp)
  def remove(self, itp, a, k):
    p = self.path(a[0])
    if itp.decide(z3.Not(sel(itp.st.ghost["exists"], p))): itp.raise_py(FileNotFoundError, "no such file")
    self.put(p, None, False)
