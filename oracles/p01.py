RULE = "random batches of add/remove/change over few ids and costs on a real PricedIdTracker, compared after every call with a multiset reference; a case is one history, non-trivial when distinct"
from collections import Counter
from lib import attempt

def table(ms):
  t = {}
  for (i, c), n in ms.items():
    if n > 0: t[i] = min(t.get(i, c), c)
  return t

def norm(ids): return {(x.id, x.cost) for x in ids}

def run(o):
  from streamtasks.net.helpers import PricedIdTracker, merge_priced_topics
  from streamtasks.net.messages import PricedId
  rng = o.rng
  def batch(n): return {PricedId(rng.randint(0, 3), rng.randint(0, 4)) for _ in range(rng.randint(0, n))}
  def histories(o):
    for _ in o.loop(at_least=400):
      t, ms, hist = PricedIdTracker(), Counter(), []
      for _ in range(rng.randint(1, 12)):
        before = table(ms)
        op = rng.choice(["add", "remove", "change"])
        a, r = batch(5), batch(5)
        if op == "add":
          hist.append(("add_many", sorted(norm(a)))); st, res = attempt(t.add_many, a)
          for x in a: ms[(x.id, x.cost)] += 1
        elif op == "remove":
          hist.append(("remove_many", sorted(norm(r)))); st, res = attempt(t.remove_many, r)
          for x in r: ms[(x.id, x.cost)] = max(0, ms[(x.id, x.cost)] - 1)
        else:
          a = {x for x in a if x not in r}
          hist.append(("change_many", sorted(norm(a)), sorted(norm(r)))); st, res = attempt(t.change_many, a, r)
          for x in r: ms[(x.id, x.cost)] = max(0, ms[(x.id, x.cost)] - 1)
          for x in a: ms[(x.id, x.cost)] += 1
        after = table(ms)
        if st == "raise": o.violate("tracker-raises:" + op, repr(res), hist); break
        got = {x.id: x.cost for x in t.items()}
        if not o.expect(got == after, "tracker-table:" + op, f"advertised {got}, cheapest registered routes are {after}", hist): break
        bad = [i for i in range(5) if (i in t) != (i in after) or t.get(i) != after.get(i, float("inf"))]
        if not o.expect(not bad, "tracker-lookup", f"get/in disagree for ids {bad}", hist): break
        changed = {(i, c) for i, c in after.items() if before.get(i) != c}
        gone = {i for i in before if i not in after}
        if op == "add": ok = norm(res) == changed; msg = f"reported {norm(res)}, changed {changed}"
        elif op == "remove": ok = set(res[0]) == gone and norm(res[1]) == changed; msg = f"reported {res[0]}, {norm(res[1])}, changed {gone}, {changed}"
        else:
          obs = dict(before)
          for i in res[1]: obs.pop(i, None)
          obs.update(norm(res[0]))
          ok = obs == after and len({x.id for x in res[0]}) == len(res[0]); msg = f"applying the reported changes {norm(res[0])}, {res[1]} to {before} gives {obs}, the table is {after}"
        if not o.expect(ok, "tracker-report:" + op, msg, hist): break
      o.case(hist)
  def merges(o):
    for _ in o.loop(at_least=300):
      l = [PricedId(rng.randint(0, 4), rng.randint(-2, 6)) for _ in range(rng.randint(0, 8))]
      st, res = attempt(merge_priced_topics, iter(l))
      want = {}
      for x in l: want[x.id] = min(want.get(x.id, x.cost), x.cost)
      o.case([(x.id, x.cost) for x in l])
      if st == "raise": o.violate("merge-raises", repr(res), l); continue
      o.expect(norm(res) == set(want.items()), "merge", f"{norm(res)} instead of {want}", [(x.id, x.cost) for x in l])
  o.part("histories", histories, 0.7)
  o.part("merge", merges, 0.2)
