"""Behaviour-preserving edits on which every check must stay quiet (development only)."""
import subprocess, sys, os
REPO = os.environ.get("REPO", "/repo")
PROPS = os.environ.get("PROPS", "all")
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def try_(name, edits):
    for f, old, new in edits:
        p = REPO + "/" + f
        s = open(p).read() if old is not None else ""
        if old is not None:
            assert s.count(old) == 1, (name, f, s.count(old))
            s = s.replace(old, new)
        else:
            s = new
        open(p, "w").write(s)
    b = sh("bash /opt/vp/build.sh" if REPO == "/repo" else f"cd {REPO} && go vet ./libs/... >/dev/null; go build ./...")
    c = sh(f"mkdir -p /tmp/v{os.getpid()}; {os.environ.get("AN","/verif/.bin/analyzer")} -property {PROPS} -verif /tmp/v{os.getpid()} -repo {REPO} -known /verif/known-findings.txt")
    bad = [l for l in c.stdout.splitlines() if not l.startswith("OK ")]
    print(name, "QUIET" if not bad and c.returncode == 0 else "ALARM", "" if b.returncode == 0 else "BUILD " + b.stdout[-600:])
    for l in bad[:14]: print("   ", l[:300])
    if os.environ.get("DIFF"):
        d = os.environ["DIFF"]
        print(sh(f"{os.environ.get("AN","/verif/.bin/analyzer")} -repo {REPO} -dump golden:{d} > /tmp/rd.txt; diff /verif/analyzer/specs/{d}.txt /tmp/rd.txt | cut -c1-%s" % os.environ.get("W", "900")).stdout)
    sh(f"git -C {REPO} checkout -- .; git -C {REPO} clean -fdq -- libs instances")
