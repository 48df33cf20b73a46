RULE = "random sequences of append, pop, popleft, delete, replace, clear, index, iterate and len (with messages of every kind, some unserialisable, and indices in and out of range) on a real buffer and on a list; after every step the contents and the stored keys are compared, and at the end the files; a case is one sequence"
import os, tempfile, glob, gc, shutil, msgpack
from lib import attempt
from streamtasks.net.serialization import RawData
from streamtasks.rawdatabuffer import RawDataBuffer

def msg(rng):
  v = rng.choice([{"timestamp": 1, "v": rng.random()}, rng.randint(0, 1000), "x" * rng.randint(0, 20), [1, 2, None], {"b": b"\x00" * rng.choice([0, 1, 3000])}, "", 0, False, {}, []])
  return v, RawData(msgpack.packb(v)) if rng.random() < 0.5 else RawData(v)
def run(o):
  base = tempfile.mkdtemp(); tempfile.tempdir = base
  try: sequences(o)
  finally: shutil.rmtree(base)
def sequences(o):
  for _ in o.loop(at_least=30):
    rng = o.rng; b, l, hist, files = RawDataBuffer(), [], [], None
    for _ in range(rng.randint(1, 25)):
      op = rng.choice(["append"] * 6 + ["pop", "popleft", "popat", "del", "set", "get", "clear", "bad", "badset"])
      i = rng.randint(-len(l) - 2, len(l) + 1)
      v, d = msg(rng); before = list(l); hist.append((op, i, repr(v)[:60]))
      if op in ("bad", "badset"): d = RawData({"a": object()})
      def real():
        if op in ("append", "bad"): return b.append(d)
        if op == "pop": return b.pop()
        if op == "popleft": return b.popleft()
        if op == "popat": return b.pop(i)
        if op == "del": del b[i]; return
        if op in ("set", "badset"): b[i] = d; return
        if op == "get": return b[i]
        b.clear()
      def ideal():
        if op in ("bad", "badset"): raise TypeError()
        if op == "append": return l.append(v)
        if op == "pop": return l.pop()
        if op == "popleft": return l.pop(0)
        if op == "popat": return l.pop(i)
        if op == "del": del l[i]; return
        if op == "set": l[i] = v; return
        if op == "get": return l[i]
        l.clear()
      s1, r1 = attempt(real); s2, r2 = attempt(ideal)
      if s1 != s2 or s1 != "ok" and op not in ("bad", "badset") and not isinstance(r1, IndexError): o.violate("op-" + op, f"{op} gives {r1!r}, on a list {r2!r}", hist); break
      if s1 == "ok" and r2 is not None: o.expect(isinstance(r1, RawData) and r1.data == r2, "value", f"{op} gives {getattr(r1, 'data', r1)!r} instead of {r2!r}", hist)
      st, got = attempt(lambda: ([x.data for x in b], len(b), len(b._db.keys())))
      if not o.expect(st == "ok" and got[0] == l and got[1] == len(l), "content", f"after {op} it holds {got!r} instead of {l!r}", hist): break
      o.expect(got[2] == len(l), "storage", f"{got[2]} entries stored for {len(l)} messages", hist)
    o.case(hist)
    name = b._db_file
    r1 = r2 = st = got = real = ideal = None; del b; gc.collect()
    o.expect(not glob.glob(glob.escape(name) + "*"), "files", "files are left behind", hist)
