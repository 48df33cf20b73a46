RULE = "random endpoints written and read back, and random texts parsed, compared with the definition (one colon, int() of the port); a case is one endpoint or text"
from lib import *
from streamtasks.net.utils import endpoint_to_str, str_to_endpoint, validate_address_name

PIECES = ["a", "b", ":", "1", "23", "0", "-", "+", " ", "_", "é", "٣", "\n", "", "abc", "1a", "x1", "/", "."]
def text(rng): return "".join(rng.choice(PIECES) for _ in range(rng.randint(0, 6)))
def is_int(s):
  try: return int(s)
  except ValueError: return None
def bad_name(s): return ":" in s or s[:1] in tuple("0123456789")

def there(o):
  rng = o.rng
  for _ in o.loop(at_least=300):
    a = rng.choice([0, 1, 7, 10, 2**32, rng.randint(0, 10**9)]) if rng.random() < 0.4 else text(rng)
    p = rng.choice([0, 1, -1, 65535, 1 << 40, rng.randint(0, 70000)])
    st, s = attempt(endpoint_to_str, (a, p))
    o.case((a, p))
    if isinstance(a, str) and bad_name(a):
      o.expect(st == "raise" and isinstance(s, ValueError), "name-not-refused", f"{s!r}", (a, p))
      o.expect(attempt(validate_address_name, a)[0] == "raise", "validate-not-refused", "", a)
      continue
    if not o.expect(st == "ok", "endpoint-refused", repr(s), (a, p)): continue
    st, r = attempt(str_to_endpoint, s)
    o.expect(st == "ok" and tuple(r) == (a, p) and type(r[0]) is type(a), "round-trip", f"{s!r} reads as {r!r}", (a, p))

def parse(o):
  rng = o.rng
  for _ in o.loop(at_least=300):
    t = text(rng) if rng.random() < 0.5 else text(rng) + ":" + rng.choice(["1", "22", "-3", "", "a", text(rng)])
    st, r = attempt(str_to_endpoint, t)
    o.case(t)
    want = None
    if t.count(":") == 1:
      a, p = t.split(":")
      p = is_int(p)
      if a[:1] in tuple("0123456789"): a = is_int(a)
      if a is not None and p is not None: want = (a, p)
    if want is None: o.expect(st == "raise" and isinstance(r, ValueError), "not-rejected", repr(r), t)
    else: o.expect(st == "ok" and tuple(r) == want, "parsed", f"{r!r} instead of {want!r}", t)

def run(o):
  o.part("endpoints there and back", there, 0.5)
  o.part("texts parsed", parse, 0.5)
