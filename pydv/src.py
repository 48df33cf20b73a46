"""Mechanical extraction: parses /repo's current files and resolves names."""
import ast, os

class Module:
  def __init__(self, name, path, loader):
    self.name, self.path, self.loader = name, path, loader
    with open(path, "rb") as fd: self.text = fd.read().decode("utf-8")
    self.tree = ast.parse(self.text, filename=path)
    self.defs = {}      # name -> list of nodes (in order)
    self.imports = {}   # name -> ("mod", dotted) | ("from", dotted, attr)
    self._scan(self.tree.body)
    self.cache = {}
  def _scan(self, body):
    for n in body:
      if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): self.defs.setdefault(n.name, []).append(n)
      elif isinstance(n, ast.Import):
        for a in n.names: self.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
      elif isinstance(n, ast.ImportFrom):
        base = n.module or ""
        if n.level:
          pkg = self.name.split(".") if self.path.endswith("__init__.py") else self.name.split(".")[:-1]
          pkg = pkg[:len(pkg) - (n.level - 1)]
          base = ".".join(pkg + ([base] if base else []))
        for a in n.names: self.imports[a.asname or a.name] = ("from", base, a.name)
      elif isinstance(n, ast.Assign):
        for t in n.targets:
          for x in ast.walk(t):
            if isinstance(x, ast.Name): self.defs.setdefault(x.id, []).append(n)
      elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
        self.defs.setdefault(n.target.id, []).append(n)
      elif isinstance(n, ast.If):
        self._scan(n.body); self._scan(n.orelse)
      elif isinstance(n, ast.Try):
        self._scan(n.body)
        for h in n.handlers: self._scan(h.body)
        self._scan(n.orelse); self._scan(n.finalbody)

class Loader:
  def __init__(self, root="/repo", pkg="streamtasks"):
    self.root, self.pkg, self.mods = root, pkg, {}
  def is_own(self, dotted): return dotted == self.pkg or dotted.startswith(self.pkg + ".")
  def path_of(self, dotted):
    p = os.path.join(self.root, *dotted.split("."))
    if os.path.isfile(p + ".py"): return p + ".py"
    if os.path.isfile(os.path.join(p, "__init__.py")): return os.path.join(p, "__init__.py")
    return None
  def module(self, dotted):
    if dotted not in self.mods:
      p = self.path_of(dotted)
      if p is None: return None
      self.mods[dotted] = Module(dotted, p, self)
    return self.mods[dotted]
