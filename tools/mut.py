#!/usr/bin/env python3
"""Try planted bugs in a scratch copy: tools/mut.py [--no-tests] [--no-demo] [--checks C01,C02] ID...
Prints, per bug: whether it builds, the stable tests pass, the demo tells it apart, and which checks report it."""
import argparse, json, os, subprocess, sys, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--no-demo", action="store_true")
ap.add_argument("--checks")
ap.add_argument("--seeds", default="1")
ap.add_argument("--dir", default="/tmp/mut")
a = ap.parse_args()
M = a.dir
REPO = os.environ.get("VERIF_REPO", "/repo")


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def script(name):
    # the sandbox's own scripts, pointed at the copy
    lib = M + "-lib"
    os.makedirs(lib + "/lib", exist_ok=True)
    for f in ["build.sh", "test.sh", "results.py", "lib/build_ext.py", "lib/check.py", "lib/env.sh", "lib/vp_keep_solver.py", "BASELINE.json"]:
        text = open("/opt/vp/" + f).read().replace("/opt/vp/", lib + "/")
        if f != "BASELINE.json":
            text = text.replace("/repo", M)
        old = open(lib + "/" + f).read() if os.path.exists(lib + "/" + f) else None
        if old != text:
            open(lib + "/" + f, "w").write(text)
    return "%s/%s" % (lib, name)


def fresh():
    if not os.path.exists(M):
        sh("cp -a /repo %s" % M)
    head = sh("git -C %s rev-parse HEAD" % REPO).stdout.strip()
    sh("cd %s && git fetch -q %s HEAD; git checkout -q -f %s && git checkout -q -- . && git clean -fdq" % (M, REPO, head))


def build():
    return sh("bash " + script("build.sh"))


def stable(out):
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base["stable"]
    got = set(json.load(open(out))["passed"])
    return [t for t in want if t not in got]


def demo(d):
    return sh("cd %s && PYTHONPATH=%s timeout 300 bash %s/demo.sh" % (M, M, d))


for i in a.ids:
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    line = [i, meta["property"]]
    fresh()
    if not a.no_demo:
        b = build()
        r = demo(d)
        line.append("demo0=%d" % r.returncode)
        if r.returncode:
            print(r.stdout[-1500:])
    r = sh("cd %s && git apply %s/patch.diff" % (M, d))
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stdout); continue
    b = build()
    if b.returncode:
        print(i, "DOES NOT BUILD", b.stdout[-3000:]); continue
    if not a.no_demo:
        r = demo(d)
        line.append("demo1=%d" % r.returncode)
    if not a.no_tests:
        sh("bash %s /tmp/mut-tests.json" % script("test.sh"))
        bad = stable("/tmp/mut-tests.json")
        line.append("tests=%s" % ("pass" if not bad else "FAIL(%d): %s" % (len(bad), bad[:3])))
    for c in (a.checks.split(",") if a.checks else [meta["property"]]):
        for s in a.seeds.split(","):
            r = sh("cd %s && VERIF_REPO=%s VERIF_NOBUILD=1 VERIF_SEED=%s bash run.sh %s quick" % (HERE, M, s, c))
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION") or "violation" in x.lower()]
            line.append("%s/s%s=%d %s" % (c, s, r.returncode, ("\n      " + "\n      ".join(x[:300] for x in v[:2])) if v else ""))
    print(" ".join(line), flush=True)
fresh()
