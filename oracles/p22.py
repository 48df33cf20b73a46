RULE = "random entries are stored and saved repeatedly into a scratch file; the file is read back at every bytecode step of save() (as if the process stopped there) and after injected failures of writing, then loaded anew; handed-out entries are modified; a case is one history of saves"
import os, sys, tempfile, json, builtins
from lib import *
from pydantic import BaseModel
from typing import Any
from streamtasks import pydanticdb as P
from streamtasks.pydanticdb import PydanticDB

class Item(BaseModel):
  id: str
  n: int = 0
  data: dict[str, Any] = {}
  tags: list[str] = []

def val(rng, d=2):
  k = rng.randint(0, 6 if d else 4)
  if k < 4: return rng.choice(["", "ä\n\"", "x" * 500, 1, -5, None, True, 1.5])
  if k == 4: return "t"
  if k == 5: return [val(rng, d - 1) for _ in range(rng.randint(0, 3))]
  return {str(i): val(rng, d - 1) for i in range(rng.randint(0, 3))}
def item(rng): return Item(id=str(rng.randint(0, 9)), n=rng.randint(-5, 5), data={str(i): val(rng) for i in range(rng.randint(0, 3))}, tags=[str(i) for i in range(rng.randint(0, 3))])

def content(f):
  try:
    with builtins.open(f, "rb") as fd: return fd.read()
  except FileNotFoundError: return None

class Broken:
  """a file whose n-th write stops in the middle"""
  def __init__(self, fd, left): self.fd, self.left = fd, left
  def __enter__(self): self.fd.__enter__(); return self
  def __exit__(self, *a): return self.fd.__exit__(*a)
  def __getattr__(self, n): return getattr(self.fd, n)
  def write(self, b):
    self.left[0] -= 1
    if self.left[0] < 0:
      self.fd.write(b[:len(b) // 2]); self.fd.flush(); raise OSError("device full")
    return self.fd.write(b)

def history(o):
  for _ in o.loop(at_least=20):
    rng = o.rng
    with tempfile.TemporaryDirectory() as d:
      f = os.path.join(d, "x.json"); db = PydanticDB(Item, f); hist = []
      for _ in range(rng.randint(1, 4)):
        old = content(f)
        es = [item(rng) for _ in range(rng.choice([0, 1, 2, 5]))]
        db.update(iter(es) if rng.random() < 0.5 else es); hist.append([e.model_dump() for e in es])
        seen = set()
        def tr(fr, ev, arg):
          if fr.f_code.co_filename != P.__file__: return None
          fr.f_trace_opcodes = True
          seen.add(content(f))
          return tr
        broken = rng.random() < 0.3
        if broken:
          left = [rng.randint(0, 1)]
          P.open = lambda *a, **k: Broken(builtins.open(*a, **k), left)
        sys.settrace(tr)
        try: st, r = attempt(db.save)
        finally:
          sys.settrace(None)
          if broken: del P.open
        new = content(f); seen.add(new)
        st2, full = attempt(lambda: json.loads(new) if new is not None else None)
        want = [e.model_dump() for e in es]
        if st == "ok": o.expect(st2 == "ok" and full == want, "saved", f"the saved file holds {new!r}, not {want!r}", hist)
        elif not broken: o.violate("save-raises", repr(r), hist)
        def whole(x):
          if x == old: return True
          s_, v = attempt(lambda: json.loads(x))
          return s_ == "ok" and v == want
        bad = [x for x in seen if not whole(x)]
        if bad: o.violate("torn-save", f"while saving the file holds {bad[0]!r}, neither the previous {old!r} nor the new entries", hist); break
        got = db.entries
        o.expect(got == es, "entries", f"{got} handed out, {es} stored", hist)
        if got:
          e = rng.choice(got); e.n = 99; e.tags.append("changed"); e.data["changed"] = 1
          for v in list(e.data.values()):
            if isinstance(v, (list,)): v.append("changed")
            if isinstance(v, dict): v["changed"] = 1
          got.clear()
        o.expect([e.model_dump() for e in db.entries] == want, "alias", f"changing a handed-out entry changes the stored ones: {db.entries}", hist)
        if st == "ok":
          st, again = attempt(lambda: PydanticDB(Item, f).entries)
          o.expect(st == "ok" and again == es, "load", f"loading gives {again!r}, saved {es!r}", hist)
          db.update([]); st, r = attempt(db.load)
          o.expect(st == "ok" and db.entries == es, "reload", f"loading gives {db.entries!r}, saved {es!r}", hist)
      o.case(hist)

def run(o): o.part("saving", history)
