"""P04: addressed messages take a cheapest known route."""
from contracts.routes import *
from contracts.p03 import same_msg

def s_route(itp):
  sw_setup(itp)
  w = new_switch(itp)
  v = T.view(itp, itp.getattr(w.o, "addresses"))
  itp.assume(v.inv())
  arr = itp.fld_arr(LINK, "addresses")
  own = itp.fresh_fn("owner", z3.IntSort(), sort(L))
  i, l = z3.Int("i!rt"), z3.Const("l!rt", sort(L))
  # the invariant of the tables (lemma + maintenance scenarios)
  itp.assume(M.mk_forall([i], z3.Implies(v.known(i), z3.And(is_link(w, own(i)), offers(sel(arr, own(i)), i, v.best(i)), v.best(i) >= 0)), [[v.known(i)], [v.best(i)]]))
  itp.assume(M.mk_forall([i, l], z3.Implies(z3.And(is_link(w, l), dom(sel(arr, l), i)), z3.And(v.known(i), v.best(i) <= val(sel(arr, l), i))), [[dom(sel(arr, l), i)], [val(sel(arr, l), i), is_link(w, l)]]))
  a = itp.fresh("address", INT)
  msg = itp.call(mcls(itp, "AddressedMessage"), [a, itp.fresh("port", INT), itp.fresh("data", PAY)])
  origin = fresh_link(itp, "origin")
  itp.st.ghost["sent"] = ()
  def send(itp_, args, kw):
    itp.st.ghost["sent"] = itp.st.ghost["sent"] + ((itp.to_term(args[0], L), same_msg(itp, args[1], msg)),)
    havoc_links(itp, w)
    if itp.choose(2, "closed") == 1: raise PyRaise(cce(itp))
  itp.models[LINK + ".send"] = send
  st, r = attempt(itp, lambda: run(itp, w.o, "handle_message", [msg, Sym(origin, L)]))
  itp.check("routing: a closed link on the way does not disconnect the sender", st == "ok")
  s = itp.st.ghost["sent"]
  itp.check("routing: never over more than one link", len(s) <= 1)
  if not s: itp.check("routing: dropped only when no connected link offers the address", z3.Not(v.known(a.t)))
  else:
    t, same = s[0]
    k = fresh_link(itp)
    itp.check("routing: over a connected link that offers the address", z3.And(is_link(w, t), dom(sel(arr, t), a.t)))
    itp.check("routing: no connected link offers it cheaper", z3.Implies(z3.And(is_link(w, k), dom(sel(arr, k), a.t)), val(sel(arr, t), a.t) <= val(sel(arr, k), a.t)))
    itp.check("routing: the message is passed on unchanged", same)

SCENARIOS = [
  Scn("an addressed message arrives", s_route, [SW + ".handle_message", SW + ".on_addressed_message", SW + ".send_to"]),
  Scn("an address announcement arrives", s_announce("addresses"), [SW + ".handle_message", SW + ".on_addresses_changed", SW + ".send_to"]),
  Scn("a link is lost", s_lost, [SW + ".remove_link", LM + ".remove_link"]),
  Scn("a link joins", s_new, [SW + ".add_link", LM + ".accept_link"]),
  Scn("the tables are the cheapest offers of the links", s_lemma, []),
]
ASSUMPTIONS = ["prices are not negative", "the number of links offering an id at a price is changed by a change of one link exactly by that link's contribution (cardinality of finite sets)",
  "PricedIdTracker.change_many/add_many/remove_many by their contracts of P01; Link._process_recv_message by its contract of P02",
  "routing between add_link's start and end: the joining link has no routes yet (nothing was received over it)"]
TRUSTED = ["cardinality of finite sets of links (update at one point)"]
