RULE = "a real network with the task manager, scripted hosts (that start, refuse, fail, answer nonsense, report before they answer, or are removed meanwhile) and a real task host: random histories of registrations, removals, orders, starts, cancels and reports with known and unknown ids; after every step the manager's answers are compared with a table kept by the rules, and the announcements with what was reported; a case is one history"
from svclib import *
from streamtasks.system.task import *
import uuid
from lib import run_async
C = TaskConstants

@contextlib.asynccontextmanager
async def system(clients=2):
  async with network(clients) as (w, cs):
    tm = TaskManager(); sw = Switch(); tasks = []
    # a switch of our own between the network of the clients and the manager
    await w.switch.add_link(await tm.create_link())
    t = asyncio.ensure_future(tm.run())
    try:
      for i in range(300):
        await asyncio.sleep(0.002)
        if hasattr(tm, "bc_server"):
          r = await ask(cs[0].fetch(NetworkAddressNames.TASK_MANAGER, C.FD_TM_LIST_TASK_HOSTS, None), 1)
          if r[0] == "ok": break
      yield w, tm, cs
    finally:
      t.cancel()
      try: await t
      except BaseException: pass

def plain(x): return {k: (str(v) if k == "id" else getattr(v, "value", v)) for k, v in (x if isinstance(x, dict) else x.model_dump()).items()}

async def history(o, rng):
  async with system(2) as (w, tm, (c, hc)):
    cl = TaskManagerClient(c); TMN = NetworkAddressNames.TASK_MANAGER
    hosts, tasks, hist, asked = {}, {}, [], []
    mode = {}
    fs = FetchServer(hc)
    @fs.route(C.FD_TASK_START)
    async def _(req):
      asked.append(("start", req.body)); m = mode["m"]
      if "report" in mode:
        await send_signal(hc, req.body["report_address"], C.SD_TM_TASK_REPORT, {"id": req.body["id"], "status": mode["report"], "error": "early" if mode["report"] == "failed" else None}); await settle(40)
      if m == "gone": await send_signal(hc, TMN, C.SD_UNREGISTER_TASK_HOST, {"id": mode["host"]}); await settle(40)
      if m == "error": await req.respond({"id": req.body["id"], "error": "refused", "metadata": {}})
      elif m == "fetcherr": await req.respond_error(("general", "broken"))
      elif m == "raise": raise RuntimeError("broken")
      elif m == "nonsense": await req.respond(rng.choice([5, None, {"id": "x"}, {"error": None}]))
      else: await req.respond({"id": req.body["id"], "error": None, "metadata": {"k": mode["n"]}})
    @fs.route(C.FD_TASK_CANCEL)
    async def _(req):
      asked.append(("cancel", req.body)); m = mode["m"]
      if m == "raise": raise RuntimeError("no")
      await req.respond("OK" if m == "ok" else "BUSY")
    st = asyncio.ensure_future(fs.run()); await settle(5)
    seen = {}; recs = []; pumps = []
    async def watch(tid):
      r = cl.task_receiver([tid]); await r.start_recv(); await settle(30); recs.append(r); seen[str(tid)] = []
      async def pump():
        while True: seen[str(tid)].append(plain(await r.get()))
      pumps.append(asyncio.ensure_future(pump()))
    gone = []
    hr = cl.task_host_unregistered_receiver(); await hr.start_recv(); recs.append(hr); await settle(30)
    async def hp():
      while True: gone.append((await hr.get()).id)
    pumps.append(asyncio.ensure_future(hp()))
    gone0 = 0; expect_seen = {}
    def tell(i): expect_seen.setdefault(i, []).append(dict(tasks[i]))
    try:
      for step in range(rng.randint(6, 16)):
        k = rng.choice(["register", "schedule", "schedule", "start", "start", "start", "report", "report", "cancel", "remove", "junk"])
        ids = list(tasks) + [str(uuid.uuid4())]; i = rng.choice(ids) if rng.random() < 0.25 else (list(tasks)[-1] if tasks else ids[-1])
        asked.clear(); r = None
        if k == "register":
          h = rng.choice(["h1", "h2", "h3"]); md = {"v": rng.randrange(5)}; hist.append((k, h, md))
          r = await ask(c.fetch(TMN, C.FD_REGISTER_TASK_HOST, {"id": h, "address": hc.address, "metadata": md}))
          o.expect(r == ("ok", None), "register", f"registering a host: {r}", hist); hosts[h] = {"id": h, "address": hc.address, "metadata": md}
        elif k == "remove":
          h = rng.choice(["h1", "h2", "h3"]); hist.append((k, h))
          await send_signal(c, TMN, C.SD_UNREGISTER_TASK_HOST, {"id": h}); await settle(60)
          hosts.pop(h, None); gone0 += 1
          for t in [t for t, x in tasks.items() if x["host_id"] == h]: del tasks[t]
          o.expect(gone[gone0 - 1:] == [h], "removed-announced", f"removing {h} was announced as {gone[gone0 - 1:]}", hist); gone0 = len(gone)
        elif k == "schedule":
          h, sp = rng.choice(list(hosts) or ["h1"]) if rng.random() < 0.85 else "nowhere", rng.choice([None, 3, 0]); hist.append((k, h, sp))
          r = await ask(cl.schedule_task(h, sp))
          if not o.expect(r[0] == "ok", "schedule", f"ordering a task: {r}", hist): return
          d = plain(r[1]); o.expect(d["id"] not in tasks and (d["host_id"], d["topic_space_id"], d["status"], d["error"], d["metadata"]) == (h, sp, "scheduled", None, {}), "schedule-answer", f"the new task is {d}", hist)
          tasks[d["id"]] = d; await watch(r[1].id)
        elif k == "report":
          s = rng.choice(["running", "ended", "failed", "stopped"]); e = rng.choice([None, "e"]); hist.append((k, i[:4], s, e)); 
          await send_signal(hc, TMN, C.SD_TM_TASK_REPORT, {"id": i, "status": s, "error": e}); await settle(60)
          if i in tasks:
            tasks[i].update(status=s, error=e); tell(i)
            if s != "running": del tasks[i]
        elif k == "start":
          mode.clear(); mode.update(m=rng.choice(["ok", "ok", "ok", "error", "fetcherr", "raise", "nonsense", "gone"]), n=rng.randrange(9), host=tasks[i]["host_id"] if i in tasks else "h1")
          early = i in tasks and tasks[i]["status"] == "scheduled" and mode["m"] not in ("gone",) and rng.random() < 0.3
          if early: mode["report"] = rng.choice(["running", "ended", "failed"])
          conf = {"c": rng.randrange(99)}; hist.append((k, i[:4], dict(mode), conf))
          r = await ask(c.fetch(TMN, C.FD_TM_TASK_START, {"id": i, "config": conf})); await settle(10)
          if i not in tasks: o.expect(r[0] == "error" and r[1].body[0] == "not_found" and not asked, "start-unknown", f"starting an unknown task: {r}, host asked {asked}", hist)
          elif tasks[i]["host_id"] not in hosts:
            o.expect(r[0] == "error" and not asked, "start-no-host", f"starting on a host that is gone: {r}, asked {asked}", hist); del tasks[i]
          else:
            t = tasks[i]; ok = [a for a in asked if a[0] == "start"]
            o.expect(len(ok) == 1 and ok[0][1]["id"] == i and ok[0][1]["config"] == conf and ok[0][1]["topic_space_id"] == t["topic_space_id"], "start-asked", f"the host was asked {asked}", hist)
            m = mode["m"]
            if early:
              t.update(status=mode["report"], error="early" if mode["report"] == "failed" else None); tell(i)
            if m in ("fetcherr", "raise", "nonsense"):
              o.expect(r[0] == "error", "start-fails", f"a host that fails ({m}): {r}", hist); del tasks[i]
            elif m == "error":
              o.expect(r[0] == "ok" and r[1]["status"] == "failed" and r[1]["error"] == "refused", "start-refused", f"a host that refuses: {r}", hist); del tasks[i]
            elif r[0] != "ok": o.violate("start", f"starting: {r}", hist); return
            else:
              if t["status"] == "scheduled": t["status"] = "running"
              t["metadata"] = {"k": mode["n"]}
              o.expect(plain(r[1])["status"] == t["status"] and plain(r[1])["id"] == i, "start-answer", f"the start was answered {r[1]}, the task is {t}", hist)
              if m == "gone":
                gone0 += 1; hosts.pop(mode["host"], None)
                for x in [x for x, y in tasks.items() if y["host_id"] == mode["host"]]: del tasks[x]
              elif t["status"] not in ("running", "scheduled"): del tasks[i]
          gone0 = len(gone)
        elif k == "cancel":
          mode.clear(); mode.update(m=rng.choice(["ok", "ok", "raise", "busy"])); hist.append((k, i[:4], mode["m"]))
          r = await ask(c.fetch(TMN, C.FD_TM_TASK_CANCEL, {"id": i}))
          if i not in tasks or tasks[i]["host_id"] not in hosts: o.expect(r[0] == "error" and r[1].body[0] == "not_found" and not asked, "cancel-unknown", f"cancelling an unknown task: {r}, asked {asked}", hist)
          else:
            o.expect([a[1] for a in asked] == [{"id": i}], "cancel-asked", f"the host was asked {asked}", hist)
            o.expect((r[0] == "ok") == (mode["m"] == "ok"), "cancel-answer", f"cancelling with a host that says {mode['m']}: {r}", hist)
        else:
          d = rng.choice([C.FD_TM_TASK_SCHEDULE, C.FD_TM_TASK_START, C.FD_TM_TASK_CANCEL, C.FD_TM_TASK_GET, C.FD_REGISTER_TASK_HOST, C.FD_TM_GET_TASK_HOST]); hist.append((k, d))
          r = await ask(c.fetch(TMN, d, rng.choice([5, {}, {"id": 3}, None])))
          o.expect(r[0] == "error", "malformed", f"a malformed {d} was answered {r}", hist)
          await send_signal(c, TMN, C.SD_TM_TASK_REPORT, rng.choice([{}, {"id": "x"}, 4])); await settle(8)
        # the tables
        r = await ask(cl.list_task_hosts())
        if not o.expect(r[0] == "ok", "list", f"listing hosts: {r}", hist): return
        o.expect({x.id: x.model_dump() for x in r[1]} == hosts and len(r[1]) == len(hosts), "hosts", f"the hosts are {r[1]}, not {hosts}", hist)
        for t in set(ids) | set(tasks):
          r = await ask(c.fetch(TMN, C.FD_TM_TASK_GET, {"id": t}))
          if t in tasks: o.expect(r[0] == "ok" and plain(r[1]) == tasks[t], "task", f"the task {t[:4]} is {r}, not {tasks[t]}", hist)
          else: o.expect(r[0] == "error" and r[1].body[0] == "not_found", "task-left", f"a task that is gone is still there: {r}", hist)
        await settle(5)
        for t, l in seen.items(): o.expect(l == expect_seen.get(t, []), "announced", f"announced for {t[:4]}: {l}, reported: {expect_seen.get(t, [])}", hist)
    finally:
      for p in pumps: p.cancel()
      st.cancel()
      try: await st
      except BaseException: pass
  o.case(hist)

class Run(Task):
  def __init__(self, client, host, conf, space): super().__init__(client); self.host, self.conf, self.space = host, conf, space
  async def setup(self):
    if self.conf.get("setup") == "fail": raise ValueError("no setup")
    if self.conf.get("setup") == "bad": return {"x": [1, object()]}
    return {"m": self.conf["n"]}
  async def run(self):
    self.host.log.append(("run", self.conf["n"])); k = self.conf["kind"]
    try:
      if k == "fail": raise RuntimeError("broken")
      if k == "fetch": raise FetchError(("general", "x"))
      if k == "end": return
      await asyncio.sleep(1000)
    finally: self.host.log.append(("over", self.conf["n"]))
class Host(TaskHost):
  def __init__(self, *a): super().__init__(*a); self.log, self.made = [], []
  async def create_task(self, config, space):
    self.made.append((config, space))
    if config.get("create") == "fail": raise ValueError("no")
    return Run(await self.create_client(), self, config, space)

async def real(o, rng):
  hist = []
  async with system(1) as (w, tm, (c,)):
    cl = TaskManagerClient(c)
    h = Host([NetworkAddressNames.TASK_MANAGER]); await w.switch.add_link(await h.create_link())
    t = asyncio.ensure_future(h.run())
    reports = []; orig = tm.bc_server.broadcast
    async def spy(ns, data): reports.append((ns, data.data)); await orig(ns, data)
    tm.bc_server.broadcast = spy
    def said(i): return [(d["status"] if isinstance(d["status"], str) else d["status"].value, d["error"]) for n, d in reports if n.endswith(str(i)) and "status" in d]
    try:
      for _ in range(200):
        await asyncio.sleep(0.002)
        r = await ask(cl.list_task_hosts())
        if r[0] == "ok" and r[1]: break
      if not o.expect(r[0] == "ok" and [x.id for x in r[1]] == [h.id], "host-registers", f"a started host is not listed: {r}", hist): return
      live = []
      for n in range(rng.randint(1, 6)):
        conf = {"n": n, "kind": rng.choice(["stay", "stay", "end", "fail", "fetch"]), "setup": rng.choice(["", "", "", "fail", "bad"]), "create": rng.choice(["", "", "", "", "fail"])}
        hist.append(dict(conf)); h.made.clear(); h.log.clear()
        r = await ask(cl.schedule_start_task(h.id, conf, None)); await settle(40)
        bad = conf["create"] or conf["setup"]
        o.expect(h.made == [(conf, None)], "host-config", f"the task was made with {h.made}", hist)
        if not o.expect(r[0] == "ok", "host-start", f"starting on a real host: {r}", hist): return
        i = r[1].id
        if bad:
          o.expect(r[1].status == TaskStatus.failed and r[1].error is not None, "host-refuses", f"a failed start was answered {r[1]}", hist)
          o.expect(i not in h.tasks and h.log == [], "host-failed-runs", f"a task whose start failed runs: {h.log}", hist); continue
        await settle(40)
        over = conf["kind"] != "stay"
        o.expect(("run", n) in h.log, "host-runs", f"a started task does not run: {h.log}", hist)
        g = await ask(cl.get_task(i))
        if over:
          o.expect(g[0] == "error", "ended-left", f"an ended task is still there: {g}", hist)
          o.expect(i not in h.tasks, "host-ended-left", "an ended task is still on its host", hist)
          s = said(i); o.expect(len(s) == 1 and s[0][0] == ("ended" if conf["kind"] == "end" else "failed") and (s[0][1] is None) == (conf["kind"] == "end"), "host-report", f"a task that {conf['kind']}s was reported {s}", hist)
        else:
          o.expect(g[0] == "ok" and g[1].status == TaskStatus.running and g[1].metadata == {"m": n}, "running", f"a running task is {g}", hist); live.append(i)
      if live and rng.random() < 0.7:
        i = live.pop(rng.randrange(len(live))); hist.append("cancel")
        r = await ask(cl.cancel_task_wait(i))
        o.expect(r[0] == "ok" and r[1].id == i and r[1].status == TaskStatus.stopped, "cancel-wait", f"cancelling and waiting: {r}", hist); await settle(30)
        o.expect(said(i) == [("stopped", None)], "host-stop-report", f"a cancelled task was reported {said(i)}", hist)
        o.expect(i not in h.tasks and (await ask(cl.get_task(i)))[0] == "error", "cancelled-left", "a cancelled task is still there", hist)
        try: r = await asyncio.wait_for(cl.cancel_task_wait(i), 3); r = ("ok", r)
        except TaskNotFoundError: r = "not found"
        except BaseException as e: r = e
        o.expect(r == "not found", "cancel-gone", f"cancelling a task that is gone: {r}", hist)
      hist.append("stop"); h.log.clear(); running = list(h.tasks.values()); down = []
      od = h.shutdown
      async def sd(): down.append(all(x.done() for x in running)); await od()
      h.shutdown = sd
      t.cancel()
      try: await asyncio.wait_for(t, 4); e = None
      except BaseException as x: e = x
      await settle(40)
      o.expect(isinstance(e, asyncio.CancelledError), "stop-fails", f"a stopped host fails with {e!r}", hist)
      o.expect(down == [True], "stop-tasks", f"a stopping host does not stop and wait for its tasks and close its links: {down}", hist)
      r = await ask(cl.list_task_hosts()); o.expect(r == ("ok", []), "stop-registered", f"a stopped host is still listed: {r}", hist)
    finally:
      t.cancel()
      try: await t
      except BaseException: pass
  o.case(hist)

def run(o):
  import io
  def quiet(f):
    def g(o_):
      for _ in o_.loop(at_least=3):
        with contextlib.redirect_stdout(io.StringIO()): run_async(f(o_, o_.rng), 60)
    return g
  o.part("manager", quiet(history), 0.55)
  o.part("host", quiet(real), 0.45)
