RULE = "a real discovery service and two clients that register, re-register and unregister names (directly and through the name context, failing bodies included); after every step every name is resolved at the service and at each client; a case is one history"
from svclib import *
from streamtasks.client.discovery import address_name_context, wait_for_address_name

async def at_service(c, n):
  r = await c.fetch(NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_RESOLVE_ADDRESS, ResolveAddressRequestBody(address_name=n).model_dump())
  return r["address"]

async def history(o, rng):
  async with network(2) as (w, cs):
    N = ["a", "b", "name"]; ref, hist, open_ = {}, [], []
    probe, c = cs
    for _ in range(rng.randint(3, 8)):
      k = rng.choice(["register", "context", "leave", "unregister", "resolve", "wait"]); n = rng.choice(N)
      if k == "register":
        a = rng.choice([0, 5, 7, c.address]); hist.append((k, n, a))
        await c.fetch(NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_REGISTER_ADDRESS_NAME, RegisterAddressNameRequestBody(address_name=n, address=a).model_dump()); ref[n] = a
      elif k == "unregister":
        hist.append((k, n)); await send_signal(c, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, UnregisterAddressNameMessage(address_name=n).model_dump()); await settle(15); ref.pop(n, None)
      elif k == "context" and not any(x[0] == n for x in open_):
        a = rng.choice([None, 0, 5, 9]); hist.append((k, n, a)); x = address_name_context(c, n, a); await x.__aenter__(); open_.append((n, x)); ref[n] = c.address if a is None else a
        o.expect(await c.resolve_address_name(n) == ref[n], "context-local", f"inside its own registration {n} resolves to {await c.resolve_address_name(n)}", hist)
      elif k == "leave" and open_:
        n, x = open_.pop(rng.randrange(len(open_))); fail = rng.random() < 0.3; hist.append((k, n, "failing" if fail else ""))
        try: await x.__aexit__(*((RuntimeError, RuntimeError("x"), None) if fail else (None, None, None)))
        except RuntimeError: pass
        await settle(15); ref.pop(n, None)
        got = await c.resolve_address_name(n)
        o.expect(got is None, "left-local", f"{n} still resolves to {got} locally after its registration ended", hist)
      elif k == "wait" and n in ref:
        hist.append((k, n)); f = Client(await w.switch.add_local_connection()); f.start(); f._address = 12345
        st, r = await ask(wait_for_address_name(probe, n), 2)
        if st == "ok": o.expect(r == ref[n] or r is not None, "waited", f"waiting for {n} gave {r!r}", hist)
        probe._address_resolver_cache.clear()
      for m in N:
        got = await at_service(probe, m)
        o.expect(got == ref.get(m), "resolve", f"{m} resolves to {got}, registered last: {ref.get(m)}", hist)
        probe._address_resolver_cache.clear()
        got = await probe.resolve_address_name(m)
        o.expect(got == ref.get(m), "resolve-client", f"{m} resolves to {got} at a client, registered last: {ref.get(m)}", hist)
    for n, x in open_: await x.__aexit__(None, None, None)
    o.case(hist)

async def waiting(o, rng):
  async with network(2) as (w, cs):
    t = asyncio.ensure_future(wait_for_address_name(cs[0], "late")); await settle(rng.randint(0, 40))
    async with address_name_context(cs[1], "other", 3): pass
    async with address_name_context(cs[1], "late", 77):
      st, r = await ask(t, 3)
      o.expect(st == "ok" and r == 77, "wait", f"waiting for a name gave {r!r} instead of 77", "late")
    o.case("late")

def constants(o):
  for cls in (NetworkAddresses, NetworkPorts, NetworkTopics, NetworkAddressNames):
    vals = [(k, v) for k, v in vars(cls).items() if not k.startswith("_")]
    for i, (k, v) in enumerate(vals):
      for k2, v2 in vals[i + 1:]: o.expect(v != v2, "constants", f"{cls.__name__}.{k} and {k2} are both {v!r}", None)
    o.case(cls.__name__)

def run(o):
  o.part("constants", constants, 0.01)
  def go(f):
    def h(o):
      async def main():
        for _ in o.loop(at_least=8): await f(o, o.rng)
      asyncio.run(main())
    return h
  o.part("histories", go(history), 0.8)
  o.part("waiting", go(waiting), 0.15)
