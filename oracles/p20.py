RULE = "random histories of creating, updating, deleting and reading deployments, tasks and dashboards and of deployments starting and stopping on a real store with files, directly and by web requests, compared with dicts; after every step the entries in memory and on disk are compared; a case is one step"
import os, tempfile, json
_dir = tempfile.TemporaryDirectory(); os.environ["DATA_DIR"] = _dir.name
from uuid import UUID
from p21 import http
os.environ["DATA_DIR"] = _dir.name
from svclib import *
from lib import run_async, aattempt
import streamtasks.env, streamtasks.system.task_web as tw
from streamtasks.asgi import ASGIProxyApp
from streamtasks.system.task_web import *
IDS = [UUID(int=(4 << 76) + (2 << 62) + i) for i in range(1, 6)]

def canon(x): return json.loads(x.model_dump_json(exclude={"status", "task_instance"}))
async def history(o, web):
  rng = o.rng; base = os.environ["DATA_DIR"] = tempfile.mkdtemp(dir=_dir.name); d = os.path.join(base, "user-data")
  async with network(2, True) as (_, cl):
    b = TaskWebBackend(); s = b.store; b.client = cl[0]; app = None; t = None
    if web: t = asyncio.ensure_future(b.run_asgi_server()); await settle(20); app = ASGIProxyApp(cl[1], cl[0].address)
    deps, tasks, dash, running, hist = {}, {}, {}, set(), []
    try:
      for _ in range(rng.randint(4, 30)):
        op = rng.choice(["dep+", "dep=", "dep-", "task=", "task=", "task=", "task-", "dash=", "dash-", "run", "run", "get"]); i, j = rng.choice(IDS), rng.choice(IDS)
        lab = rng.choice(["a", "b", "ü", ""]) + str(rng.randint(0, 99)); ok = True; hist.append((op, i.int & 7, j.int & 7, lab))
        e = None
        if op in ("dep+", "dep="): e = DeploymentBase(id=i, label=lab)
        if op == "task=": e = StoredTask(id=i, deployment_id=j, task_host_id="h", label=lab, config={"x": rng.choice([1, None, [1]])}, frontend_config={}, inputs=[{"k": 1}], outputs=[])
        if op == "dash=": e = DeploymentDashboard(id=i, deployment_id=j, label=lab, windows=[DeploymentDashboardWindow(task_id=j, x=1, y=2, width=3, height=rng.random())])
        if op == "dep+": ok = i not in deps
        if op == "dep=": ok = i in deps and i not in running
        if op == "dep-": ok = i not in running
        if op == "task=": ok = j not in running and (i not in tasks or UUID(tasks[i]["deployment_id"]) not in running)
        if op == "task-": ok = i in tasks and UUID(tasks[i]["deployment_id"]) not in running
        if op == "run":
          if i in running: s.delete_running_deployment(i); running.discard(i)
          else: s.set_running_deployment(RunningDeployment(id=i, topic_space_id=1, task_instances={}, task_instance_configs={})); running.add(i)
        elif op == "get":
          for f, m in ((s.get_deployment, deps), (s.get_task, tasks), (s.get_dashboard, dash)):
            st, r = await aattempt(f(i))
            o.expect((st == "ok" and canon(r) == m[i]) if i in m else isinstance(r, ValueError), "get", f"{f.__name__} gives {r!r}", hist)
            if st == "ok" and f == s.get_deployment: o.expect((r.status != "offline") == (i in running), "status", f"status {r.status}", hist)
        else:
          call = {"dep+": s.create_deployment, "dep=": s.update_deployment, "dep-": s.delete_deployment, "task=": s.create_or_update_task, "task-": s.delete_task, "dash=": s.create_or_update_dashboard, "dash-": s.delete_dashboard}[op]
          if web and rng.random() < .5:
            kind = {"dep": "deployment", "tas": "task", "das": "dashboard"}[op[:3]]
            code, body = await http(app, {"+": "POST", "=": "PUT", "-": "DELETE"}[op[-1]], f"/api/{kind}" + (f"/{i}" if op[-1] == "-" else ""), json.loads(e.model_dump_json()) if e else None)
            did = code == 200
          else:
            st, r = await aattempt(call(e) if e is not None else call(i)); did = st == "ok"
            if not did: o.expect(isinstance(r, ValueError), "error", f"{op} raises {r!r}", hist)
          o.expect(did == ok, "guard-" + op, f"{op} {'succeeds' if did else 'fails'}, running: {[x.int & 7 for x in running]}", hist)
          if ok:
            m = {"dep": deps, "tas": tasks, "das": dash}[op[:3]]
            if op[-1] == "-": m.pop(i, None)
            else: m[i] = canon(e)
        for n, db, m in (("deployments", s.deployments, deps), ("tasks", s.tasks, tasks), ("dashboards", s.dashboards, dash)):
          l = [canon(x) for x in db.entries]; f = os.path.join(d, n + ".json")
          dl = json.load(open(f)) if os.path.exists(f) else []
          key = lambda x: x["id"]
          want = sorted(m.values(), key=key)
          if not o.expect(sorted(l, key=key) == want, n, f"the {n} are {l} instead of {want}", hist): return
          if not o.expect(sorted(dl, key=key) == want, n + "-file", f"the {n} on disk are {dl} instead of {want}", hist): return
        for x in IDS[:2]:
          l = [canon(y) for y in await s.all_tasks_in_deployment(x)]
          o.expect(sorted(l, key=lambda y: y["id"]) == sorted((y for y in tasks.values() if y["deployment_id"] == str(x)), key=lambda y: y["id"]), "in-deployment", f"tasks of a deployment are {l}", hist)
        o.case(hist[-1])
    finally:
      if t: t.cancel()
def run(o):
  def direct(o):
    for _ in o.loop(at_least=6): run_async(history(o, False), 60)
  def web(o):
    for _ in o.loop(at_least=6): run_async(history(o, True), 60)
  o.part("store", direct, 0.5); o.part("web", web, 0.5)
