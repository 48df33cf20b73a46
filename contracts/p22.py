"""P22: saving is atomic on disk, loading inverts it, and handed-out entries are copies."""
from contracts.net import *
from contracts.fs import Disk

DB = "streamtasks.pydanticdb:PydanticDB"
ENTRY = ANY("entry"); L = LIST(ENTRY)
DUMP = z3.Function("dump_json", sort(L), sort(BYTES)); LOAD = z3.Function("validate_json", sort(BYTES), sort(L))

def adapter(itp):
  def dump(itp_, s, a, k):
    t = itp.to_term(a[0], L); itp.st.ghost["dumped"] = t
    if itp.choose(2): itp.raise_py(ValueError, "an entry cannot be written")
    return Sym(DUMP(t), BYTES)
  def load(itp_, s, a, k):
    b = itp.to_term(a[0], BYTES)
    if itp.choose(2): itp.raise_py(ValueError, "not the expected text")
    return itp.new_cont("list", L, LOAD(b))
  itp.any_methods[("adapter", "dump_json")], itp.any_methods[("adapter", "validate_json")] = dump, load
  return itp.fresh("adapter", ANY("adapter"))
def db(itp):
  t = itp.fresh_const("entries", sort(L)); itp.assume(l_len(L, t) >= 0)
  F = itp.fresh("filename", STR)
  o = itp.new_obj(itp.cls_by_qual(DB), {"_list_model": adapter(itp), "_entries": itp.new_cont("list", L, t), "_filename": F})
  return o, t, F.t

def s_save(itp):
  o, t, F = db(itp)
  def effect(itp_):
    g = itp_.st.ghost
    old = z3.And(sel(g["exists"], F) == was, z3.Implies(was, sel(g["disk"], F) == content))
    new = z3.And(sel(g["exists"], F), sel(g["disk"], F) == DUMP(t))
    itp_.check("at every moment the file holds the complete previous or the complete new data", z3.Or(old, new))
  d = Disk(itp, effect)
  was, content = sel(itp.st.ghost["exists"], F), sel(itp.st.ghost["disk"], F)
  st, r = attempt(itp, lambda: itp.call(itp.getattr(o, "save"), []))
  g = itp.st.ghost
  effect(itp)
  if st == "ok": itp.check("after a completed save the file holds the new data", z3.And(sel(g["exists"], F), sel(g["disk"], F) == DUMP(t)))
  itp.check("saving leaves the entries alone", itp.to_term(itp.getattr(o, "_entries"), L) == t)

def s_load(itp):
  o, t, F = db(itp)
  d = Disk(itp, lambda i: i.check("loading writes nothing", False))
  content = sel(itp.st.ghost["disk"], F)
  st, r = attempt(itp, lambda: itp.call(itp.getattr(o, "load"), []))
  e = itp.to_term(itp.getattr(o, "_entries"), L)
  if st == "ok": itp.check("loading gives the entries that are in the file", z3.And(sel(itp.st.ghost["exists"], F), e == LOAD(content)))
  else: itp.check("a file that cannot be read leaves the entries alone", e == t)

def s_init(itp):
  itp.ext_models["pydantic.TypeAdapter"] = lambda itp_, a, k: adapter(itp)
  d = Disk(itp, lambda i: i.check("opening writes nothing", False))
  F = itp.fresh("filename", STR)
  st, r = attempt(itp, lambda: itp.call(itp.cls_by_qual(DB), [itp.fresh("model", ANY("model")), F]))
  ex = sel(itp.st.ghost["exists"], F.t)
  if st != "ok": itp.check("opening fails only for a file that cannot be read", ex); return
  e = itp.getattr(r, "_entries")
  c = itp.content(itp.deref(e))
  empty = isinstance(c, PyListC) and not c.items
  itp.check("opening gives what is in the file, or nothing", z3.If(ex, z3.BoolVal(False) if empty else itp.to_term(e, L) == LOAD(sel(itp.st.ghost["disk"], F.t)), z3.BoolVal(True) if empty else l_len(L, itp.to_term(e, L)) == 0))

def s_entries(itp):
  o, t, F = db(itp)
  copies = []
  def deep(itp_, a, k):
    copies.append(itp.to_term(a[0], L)); return itp.new_cont("list", L, t)
  itp.ext_models["copy.deepcopy"] = deep
  st, r = attempt(itp, lambda: itp.getattr(o, "entries"))
  itp.check("the entries are handed out", st == "ok")
  if st != "ok": return
  itp.check("all of them, in order", itp.to_term(r, L) == t)
  itp.check("as copies down to every field", len(copies) == 1 and itp.bz(copies[0] == t))
  itp.check("in a list of their own", itp.deref(r) != itp.deref(itp.getattr(o, "_entries")))

def s_update(itp):
  o, t, F = db(itp)
  d = Disk(itp, lambda i: i.check("updating does not touch the disk", False))
  n = itp.fresh_const("new", sort(L)); itp.assume(l_len(L, n) >= 0)
  src = itp.new_cont("list", L, n)
  st, r = attempt(itp, lambda: itp.call(itp.getattr(o, "update"), [src]))
  itp.check("the given entries are the entries", st == "ok" and itp.to_term(itp.getattr(o, "_entries"), L) == n)
  itp.check("in a list of their own", itp.deref(itp.getattr(o, "_entries")) != itp.deref(src))

SCENARIOS = [Scn("save", s_save, [DB + ".save"]), Scn("load", s_load, [DB + ".load"]), Scn("__init__", s_init, [DB + ".__init__"]), Scn("entries", s_entries, [DB + ".entries"]), Scn("update", s_update, [DB + ".update"])]
ASSUMPTIONS = ["pydantic's validate_json inverts dump_json for the stored models", "os.replace is atomic; a write reaches the file in arbitrary parts until it is flushed or closed; the temporary name is used by nobody else", "copy.deepcopy shares nothing mutable"]
