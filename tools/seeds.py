"""Runs every check on every planted bug, each on its own copy of /repo; writes seeds.json (development only)."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
root = "/verif"; out = {}
p = root + "/tools/seeds.json"
if os.path.exists(p): out = json.load(open(p))
sel = sys.argv[1:] or sorted(os.listdir(root + "/seeded"))
def one(d):
    t = tempfile.mkdtemp(dir="/tmp", prefix="sd."); r = t + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    a = subprocess.run(["git", "-C", r, "apply", "%s/seeded/%s/patch.diff" % (root, d)], capture_output=True, text=True)
    if a.returncode: res = "PATCH"
    else:
        c = subprocess.run([root + "/.bin/analyzer", "-property", "all", "-verif", t + "/v", "-repo", r, "-known", root + "/known-findings.txt"], capture_output=True, text=True)
        res = ",".join(sorted({l.split("property=")[1].split()[0] for l in c.stdout.splitlines() if l.startswith("VIOLATION")}))
        own = json.load(open(root + "/seeded/%s/meta.json" % d))["property"]
        print(d, "CAUGHT" if own in res.split(",") else "MISSED", res, flush=True)
    shutil.rmtree(t); return d, res
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for d, res in ex.map(one, sel): out[d] = res
live = set(os.listdir(root + "/seeded"))
json.dump({k: v for k, v in sorted(out.items()) if k in live}, open(p, "w"), indent=1)
