"""plant.py <id> <property> : patch applied by edits in /tmp/plant/<id>/edit.py on a copy of /repo; demo.py beside it; verifies everything and writes /verif/seeded/<id>"""
import sys, os, subprocess, json, shutil
pid, src = sys.argv[1], sys.argv[2]
ns = {}
exec(open(src).read(), ns)   # PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO
wt = "/tmp/plant_wt"
shutil.rmtree(wt, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", wt], check=True)
subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
for f, old, new in ns["EDITS"]:
  p = os.path.join(wt, f); s = open(p).read()
  assert s.count(old) == 1, (f, old, s.count(old))
  open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
d = f"/verif/seeded/{pid}"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write(ns["DEMO"])
open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
if any(e[0].endswith(".cpp") for e in ns["EDITS"]): subprocess.run(["/opt/venv/bin/python", "setup.py", "build_ext", "--inplace"], cwd=wt, capture_output=True)
clean = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
bad = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, capture_output=True, text=True)
ok = clean.returncode == 0 and bad.returncode != 0
print(pid, "clean", clean.returncode, "patched", bad.returncode, "" if ok else clean.stderr[-600:] + bad.stdout[-300:] + bad.stderr[-300:])
# the original's lines only
base = subprocess.run(["git", "-C", "/repo", "show", "913c04a"], capture_output=True)
for l in diff.split("\n"):
  if l.startswith("-") and not l.startswith("---") and l[1:].strip():
    f = ns["EDITS"][0][0]
    o = "".join(subprocess.run(["git", "-C", "/repo", "show", "913c04a:" + e[0]], capture_output=True, text=True).stdout for e in ns["EDITS"])
    if l[1:] not in o: print("  WARNING: not an original line:", l)
if ok and "--notest" not in sys.argv:
  # tests on the patched tree
  subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
  try:
    subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
    subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/plant_t.json"], capture_output=True)
    t = json.load(open("/tmp/plant_t.json")); print("  tests", len(t["passed"]), t["failed"])
    if "--check" in sys.argv:
      r = subprocess.run(["/verif/bin/check", ns["PROPERTY"]], capture_output=True, text=True); print("  check exit", r.returncode); print("   ", "\n    ".join(l[:260] for l in r.stdout.strip().split("\n")[-6:]))
  finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
shutil.rmtree(wt, ignore_errors=True)
