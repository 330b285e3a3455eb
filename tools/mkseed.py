"""Helper to write and try planted bugs (development only; no check uses it)."""
import json, os, subprocess, sys
ROOT = "/verif/seeded"
DEMO = '''#!/bin/bash
# Runs the demonstration as an in-package test of %(pkg)s, through an overlay.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOROOT=/opt/veriftools/go1.27.3 GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
timeout 250 go test -count=1 -overlay "$tmp/overlay.json" -run '^TestZZDemo' "./%(pkg)s"
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def reset():
    sh("git -C /repo checkout -- .")
def stable():
    sh("bash /opt/vp/test.sh /tmp/o.json")
    o = json.load(open("/tmp/o.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    key = "stable" if "stable" in b else "passed"
    want = b.get("stable") or b.get("passed") or b.get("pass")
    got = set(o.get("passed") or o.get("pass"))
    return [t for t in want if t not in got]
def seed(id, prop, edits, needs, breaks, pkg, test):
    d = os.path.join(ROOT, id); os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty"
    open(d + "/demo.sh", "w").write(DEMO % {"pkg": pkg}); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go.txt", "w").write(test)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for f, old, new in edits:
        p = "/repo/" + f; s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    sh("cd /repo && /opt/veriftools/go1.27.3/bin/gofmt -w " + " ".join(sorted({e[0] for e in edits})))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    reset()
    return attempt(id)
def attempt(id, checks=None):
    d = os.path.join(ROOT, id); prop = json.load(open(d + "/meta.json"))["property"]
    r = sh("cd /repo && bash %s/demo.sh" % d)
    msg = []
    if r.returncode != 0:
        msg.append("DEMO FAILS ON CLEAN\n" + r.stdout[-1500:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: msg.append("PATCH " + a.stdout)
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: msg.append("BUILD " + b.stdout[-800:])
        st = stable()
        if st: msg.append("TESTS BROKEN %s" % st)
        r = sh("cd /repo && bash %s/demo.sh" % d)
        if r.returncode == 0: msg.append("DEMO PASSES WITH BUG")
        c = sh("/verif/.bin/analyzer -property all -verif /tmp/v -known /verif/known-findings.txt")
        al = sorted({l.split("property=")[1].split()[0] for l in c.stdout.splitlines() if l.startswith("VIOLATION")})
    finally:
        reset()
    hit = "CAUGHT" if prop in al else "MISSED"
    print(id, prop, hit, "alarms:", ",".join(al), "|", "; ".join(msg) or "valid")
    if "-v" in sys.argv and prop in al:
        print("\n".join(l for l in c.stdout.splitlines() if not l.startswith("OK"))[:1500])
    return hit
if __name__ == "__main__":
    sh("bash /verif/setup.sh"); os.makedirs("/tmp/v", exist_ok=True)
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(ROOT))
    for i in ids: attempt(i)
