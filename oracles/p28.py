RULE = "the current C++ source is compiled into a scratch directory with the address sanitizer and merges random images: any number, sizes that differ and are no multiple of a pixel, alpha first and last; a case is one merge"
import os, sys, subprocess, json, glob, sysconfig
def sh(*a): return subprocess.run(a, capture_output=True, text=True).stdout.strip()
CHILD = r'''
import sys, json, random, time, ast
sys.path.insert(0, sys.argv[1]); import video_perf
rng = random.Random(int(sys.argv[2])); end = time.time() + float(sys.argv[3]); log = sys.argv[1] + "/now"; cases = 0; bad = []
def want(imgs, front):
  n = min(map(len, imgs)) // 4 * 4; out = bytearray(n)
  for p in range(0, n, 4):
    al = p if front else p + 3; out[al] = 255
    for c in (p + 1, p + 2, p + 3) if front else (p, p + 1, p + 2):
      v = 0
      for im in imgs: v = ((255 - im[al]) * v + im[al] * im[c]) // 255
      out[c] = v
  return bytes(out)
while cases < 300 or time.time() < end:
  size = rng.choice([0, 1, 3, 4, 5, 7, 8, 16, 30, 64, 100] + [4000] * (cases % 20 == 0) + [rng.randint(0, 300)]); front = rng.random() < 0.5
  imgs = []
  for _ in range(rng.choice([1, 1, 2, 2, 3, 6])):
    k = size if rng.random() < 0.7 else max(0, size + rng.randint(-9, 9))
    imgs.append(bytes(rng.choice([0, 255, 128, rng.randrange(256)]) for _ in range(k)))
  with open(log, "w") as fd: json.dump([[im.hex() for im in imgs], front], fd)
  try: r = video_perf.merge_images(list(imgs), front)
  except Exception as e: bad.append(["raises", f"merging raises {e!r}", [[im.hex()[:400] for im in imgs], front]]); break
  cases += 1; w = want(imgs, front)
  if r != w: bad.append(["size" if len(r) != len(w) else "bytes", f"{len(r)} bytes {r[:32].hex()} instead of {len(w)} bytes {w[:32].hex()}", [[im.hex()[:400] for im in imgs], front]]); break
json.dump([cases, bad], open(sys.argv[1] + "/out", "w"))
'''
def build(repo, d, sanitize=True):
  vp = "/opt/venv/bin/python"; inc = sh(vp, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"); suf = sh(vp, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))")
  pb = glob.glob("/opt/venv/lib/python3*/site-packages/pybind11/include")[0]
  r = subprocess.run(["g++", "-std=c++17", "-O1", "-g", "-DNDEBUG", "-fPIC", "-shared", "-fvisibility=hidden", *(["-fsanitize=address"] if sanitize else []), "-I", pb, "-I", inc, repo + "/streamtasks/media/video_perf_all.cpp", "-o", d + "/video_perf" + suf], capture_output=True, text=True)
  if r.returncode: raise RuntimeError("the source does not compile: " + r.stderr[:500])
def run(o):
  d = os.getcwd() + "/cpp"; os.mkdir(d); build(os.environ.get("VERIF_REPO", "/repo"), d)
  with open(d + "/child.py", "w") as fd: fd.write(CHILD)
  env = {**os.environ, "LD_PRELOAD": sh("g++", "-print-file-name=libasan.so"), "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0", "PYTHONMALLOC": "malloc"}
  t = max(2.0, o.time_left() - 1)
  r = subprocess.run(["/opt/venv/bin/python", d + "/child.py", d, str(o.rng.randrange(10**6)), str(t)], capture_output=True, text=True, env=env, timeout=t + 120)
  if os.path.exists(d + "/out"):
    n, bad = json.load(open(d + "/out"))
    for i in range(n): o.case(("merge", i))
    for k, m, inp in bad: o.violate(k, m, inp)
  elif "AddressSanitizer" in r.stderr and os.path.exists(d + "/now"):
    line = next((x for x in r.stderr.splitlines() if "ERROR: AddressSanitizer" in x), ""); where = [x.strip() for x in r.stderr.splitlines() if "video_perf_all.cpp" in x][:2]
    o.case("crash"); o.violate("out-of-bounds", f"{line.split('ERROR: ')[-1][:200]} at {where}", json.load(open(d + "/now")))
  else: raise RuntimeError(f"the compiled module could not be run: {r.returncode} {r.stderr[-500:]}")
