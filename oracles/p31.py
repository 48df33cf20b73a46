RULE = "messages holding a mapping with a timestamp entry of every kind, a mapping without one or something else are made from values or from their bytes, read, rewritten and read again after any mix of decoding, encoding and copying; a case is one message with its operations"
import msgpack, math, datetime
from lib import attempt
from streamtasks.net.serialization import RawData
from streamtasks.message.utils import get_timestamp_from_message, set_timestamp_on_message

def other(rng): return {rng.choice(["a", "value", "Timestamp", 3, "x"]): rng.choice([1, "t", b"\x00", None, [1, 2], {"timestamp": 5}, 1.5]) for _ in range(rng.randint(0, 3))}
def stamp(rng): return rng.choice([0, 1, -1, 2**53 + 1, -2**63, 2**64 - 1, rng.randint(-10**13, 10**13), 0.0, -0.5, 1.9999, -1.9999, 1e15 + 0.5, 1e300, math.inf, -math.inf, math.nan, "1", "", None, b"1", [1], {"timestamp": 1}])
def eq(a, b): return type(a) is type(b) and (a == b or a != a and b != b)
def same(a, b): return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)

def run(o):
  for _ in o.loop(at_least=300):
    rng = o.rng; r = rng.random()
    if r < 0.8: v = {**other(rng), "timestamp": stamp(rng)}
    elif r < 0.9: v = other(rng)
    else: v = rng.choice([1, "timestamp", ["timestamp"], 1.5, True, datetime.datetime(2020, 1, 1)])
    if rng.random() < 0.5 and isinstance(v, dict): items = list(v.items()); rng.shuffle(items); v = dict(items)
    can_raw = not isinstance(v, (datetime.datetime,))
    d = RawData(msgpack.packb(v)) if can_raw and rng.random() < 0.5 else RawData(dict(v) if isinstance(v, dict) else v)
    has = isinstance(v, dict) and "timestamp" in v; ts = v["timestamp"] if has else None
    hist = [repr(v), "raw" if d._raw is not None else "value"]
    def touch():
      for _ in range(rng.randint(0, 2)):
        a = rng.choice(["data", "serialize"]) if can_raw else "data"; hist.append(a)
        d.data if a == "data" else d.serialize()
    touch()
    num = has and not isinstance(ts, bool) and isinstance(ts, (int, float)) and math.isfinite(ts)
    def check(ts, what):
      st, x = attempt(lambda: get_timestamp_from_message(d))
      if num: o.expect(st == "ok" and isinstance(x, int) and x == math.trunc(ts), "read", f"{what}: timestamp {ts!r} is read as {x!r}", hist)
      else: o.expect(st != "ok" and isinstance(x, ValueError), "refuse", f"{what}: reading {v!r} gives {x!r} instead of ValueError", hist)
    check(ts, "reading")
    touch()
    new = rng.choice([0, 5, -7, rng.randint(-10**12, 10**12)]); hist.append(("set", new))
    st, x = attempt(lambda: set_timestamp_on_message(d, new))
    if not has: o.expect(st != "ok" and isinstance(x, ValueError), "set-refuse", f"rewriting {v!r} gives {x!r} instead of ValueError", hist); want = v
    else: o.expect(st == "ok", "set", f"rewriting {v!r} raises {x!r}", hist); want = {**v, "timestamp": new}; num = True; v = want
    touch()
    forms = [("decoded", d.data)]
    if can_raw: forms += [("encoded", msgpack.unpackb(d.serialize(), strict_map_key=False)), ("copied", d.copy().data)]
    rng.shuffle(forms)
    for n, f in forms: o.expect((same(f, want) if isinstance(want, dict) and isinstance(f, dict) else f == want), "rewritten", f"{n} form is {f!r} instead of {want!r}", hist)
    if has: check(new, "after rewriting")
    o.case(hist)
