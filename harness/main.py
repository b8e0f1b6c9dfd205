"""python -m harness.main ID [quick|thorough] [--replay FILE] [--test NAME] [--shards N] [--budget S]"""

import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PACKAGES = ("hypothesis", "_hypothesis_globals.py", "_hypothesis_ftz_detector.py", "sortedcontainers", "attr", "attrs")
CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL}
BUDGET = {"quick": 18.0, "thorough": 420.0}
HARD = {"quick": 600.0, "thorough": 3000.0}
SHRINK_S = {"quick": 20.0, "thorough": 60.0}


class Stop(BaseException):
    """Ends a Hypothesis run from inside a case."""


def bootstrap(work):
    site = os.path.join(work, "site")
    os.makedirs(site)
    for name in PACKAGES:
        os.symlink(os.path.join(TOOLS, name), os.path.join(site, name))
    sys.path.append(site)
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import pywr
    here = os.path.realpath(os.path.dirname(pywr.__file__))
    if here != os.path.realpath(os.path.join(REPO, "pywr")):
        raise SystemExit("pywr was imported from %s" % here)
    # the extension registers solvers and classes on import
    import pywr.model, pywr.nodes, pywr.parameters, pywr.recorders  # noqa
    import logging
    logging.disable(logging.CRITICAL)


def classify(exc):
    """violation or harness error, and a one-line message, for an exception out of a check function"""
    from harness.core import Violation, HarnessError
    if isinstance(exc, Violation):
        return "violation", str(exc)
    if isinstance(exc, (HarnessError, MemoryError)):
        return "harness", repr(exc)
    frames = traceback.extract_tb(exc.__traceback__)
    text = "%s: %s" % (type(exc).__name__, exc)
    root = os.path.join(os.path.realpath(REPO), "pywr") + os.sep
    for f in frames:
        name = f.filename
        if name.startswith(root) or name.startswith("pywr/") or os.path.realpath(name).startswith(root):
            where = frames[-1]
            return "violation", "pywr raised on valid input: %s [%s:%s]" % (text, where.filename, where.lineno)
    return "harness", text + "\n" + "".join(traceback.format_exception(exc))


def run_spec(test, spec):
    from harness.core import Ev
    ev = Ev()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        test.fn(spec, ev)
    return ev


class Shard:
    def __init__(self, mod, tier, index, shards, seed, work, budget, only):
        self.mod, self.tier, self.index, self.shards, self.seed = mod, tier, index, shards, seed
        self.work, self.budget = work, budget
        self.tests = [t for t in mod.TESTS if only is None or t.name == only]
        self.current = os.path.join(work, "current-%d" % index)
        self.stopfile = os.path.join(work, "stop")

    def run(self):
        from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
        import zlib
        out = {"tests": {}, "failure": None, "harness": None}
        t0 = time.monotonic()
        total = sum(t.weight for t in self.tests)
        used = 0.0
        for test in self.tests:
            used += test.weight
            deadline = t0 + self.budget * used / total
            n = test.cases * (test.thorough if self.tier == "thorough" else 1)
            n = max(1, (n + self.shards - 1) // self.shards)
            stats = {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "planned": n, "out_of_time": False}
            out["tests"][test.name] = stats
            nts = set()
            fail = {}
            history = []

            def body(spec):
                now = time.monotonic()
                if fail:
                    if now > fail["until"]:
                        raise Stop()
                elif now > deadline and stats["evaluations"] >= 3:
                    stats["out_of_time"] = True
                    raise Stop()
                elif stats["evaluations"] % 8 == 0 and os.path.exists(self.stopfile):
                    raise Stop()
                text = json.dumps(spec)
                with open(self.current, "w") as fh:
                    fh.write(test.name + "\n" + text)
                if not fail:
                    history.append(text)
                stats["evaluations"] += 1
                try:
                    ev = run_spec(test, json.loads(text))
                except Exception as e:
                    kind, msg = classify(e)
                    if kind == "harness":
                        out["harness"] = {"test": test.name, "spec": spec, "message": msg}
                        raise Stop()
                    if not fail:
                        fail["until"] = time.monotonic() + SHRINK_S[self.tier]
                        fail["first"] = len(history)
                    if "spec" not in fail or len(text) <= len(fail["text"]):
                        fail["spec"], fail["text"], fail["message"] = spec, text, msg
                    raise
                if ev.nontrivial:
                    from harness.core import digest
                    nts.add(digest(spec))
                    if len(stats["samples"]) < 2 and len(text) < 6000:
                        stats["samples"].append(spec)
                for lab in ev.labels:
                    stats["labels"][lab] = stats["labels"].get(lab, 0) + 1

            sd = zlib.crc32(("%d/%d/%s" % (self.seed, self.index, test.name)).encode())
            runner = hseed(sd)(settings(
                max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), print_blob=False,
            )(given(test.strategy)(body)))
            try:
                runner()
            except Stop:
                pass
            except Exception as e:
                if not fail:      # out of the strategy or the library
                    out["harness"] = out["harness"] or {
                        "test": test.name, "spec": None, "message": "".join(traceback.format_exception(e))}
            stats["nontrivial"] = sorted(nts)
            if out["harness"]:
                open(self.stopfile, "w").close()
                break
            if fail:
                out["failure"] = {"test": test.name, "spec": fail["spec"], "message": fail["message"],
                                  "history": [json.loads(x) for x in history[: fail["first"]]][-400:]}
                open(self.stopfile, "w").close()
                break
        return out


def child(mod, args, i, seed, work, budget):
    log = os.open(os.path.join(work, "log-%d" % i), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(log, 1)
    os.dup2(log, 2)
    cwd = os.path.join(work, "cwd-%d" % i)
    os.makedirs(cwd)
    os.chdir(cwd)
    tmp = os.path.join(work, "tmp-%d" % i)
    os.makedirs(tmp)
    os.environ["TMPDIR"] = tempfile.tempdir = tmp
    try:
        res = Shard(mod, args.tier, i, args.shards, seed, work, budget, args.test).run()
    except BaseException as e:
        res = {"tests": {}, "failure": None,
               "harness": {"test": None, "spec": None, "message": "".join(traceback.format_exception(e))}}
    with open(os.path.join(work, "result-%d" % i), "w") as fh:
        json.dump(res, fh)
    sys.stdout.flush()
    os._exit(0)


def write_replay(prop, test, spec, message, history=None):
    from harness.core import digest
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s%s.json" % (prop, test, digest(spec), "-history" if history else ""))
    doc = {"property": prop, "test": test, "message": message, "spec": spec}
    if history:
        doc["history"] = history
    with open(path, "w") as fh:
        json.dump(doc, fh, indent=1)
    return path


def replay_file(mod, path, work):
    from harness.core import Test
    with open(path) as fh:
        doc = json.load(fh)
    probes = [Test(k, None, f, 0) for k, f in getattr(mod, "PROBES", {}).items()]
    test = next(t for t in mod.TESTS + probes if t.name == doc["test"])
    cwd = os.path.join(work, "cwd")
    os.makedirs(cwd)
    os.chdir(cwd)
    os.environ["TMPDIR"] = tempfile.tempdir = cwd
    for spec in doc.get("history", []):
        try:
            run_spec(test, spec)
        except Exception as e:
            kind, msg = classify(e)
            if kind == "violation":
                return 1, msg
            print(msg, file=sys.stderr)
            return 2, msg
    try:
        run_spec(test, doc["spec"])
    except Exception as e:
        kind, msg = classify(e)
        if kind == "harness":
            print(msg, file=sys.stderr)
            return 2, msg
        return 1, msg
    return 0, ""


def confirm(prop, path):
    """replays in a fresh process: True (violation or crash), False (nothing), None (error)"""
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "harness.main", prop, "--replay", path],
                       cwd=VERIF, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if p.returncode == 1 or -p.returncode in CRASHES:
        return True
    return False if p.returncode == 0 else None


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [k for k in json.load(fh).get("findings", []) if k["property"] == prop]


def evidence(prop, mod, tier, seed, results, wall, violations, notes):
    tests, samples, nts, evals = {}, [], 0, 0
    for t in mod.TESTS:
        per = [r["tests"][t.name] for r in results if t.name in r.get("tests", {})]
        labels = {}
        uniq = set()
        for s in per:
            uniq.update(s["nontrivial"])
            for k, v in s["labels"].items():
                labels[k] = labels.get(k, 0) + v
        n = sum(s["evaluations"] for s in per)
        tests[t.name] = {"evaluations": n, "distinct_nontrivial": len(uniq), "labels": dict(sorted(labels.items())),
                         "planned": sum(s["planned"] for s in per),
                         "shards_out_of_time": sum(bool(s["out_of_time"]) for s in per)}
        evals += n
        nts += len(uniq)
        for s in per:
            if s["samples"]:
                samples.append({"test": t.name, "spec": s["samples"][0]})
                break
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": nts, "rule": mod.RULE, "samples": samples, "tests": tests},
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + notes,
        "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as fh:
        json.dump(doc, fh, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))
    return doc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--test")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = args.property
    t0 = time.monotonic()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    code = 2
    try:
        bootstrap(work)
        sys.path.insert(0, VERIF)
        mod = importlib.import_module("checks." + prop.lower())
        if args.replay:
            path = os.path.abspath(args.replay)
            code, msg = replay_file(mod, path, work)
            if code == 1:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  " + msg)
            return code
        code = explore(mod, args, prop, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return code


def explore(mod, args, prop, seed, work, t0):
    budget = args.budget or BUDGET[args.tier] * getattr(mod, "BUDGET", 1.0)
    pids = {}
    for i in range(args.shards):
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            child(mod, args, i, seed, work, budget)
        pids[pid] = i
    crashed, errors = [], []
    hard = t0 + HARD[args.tier]
    while pids:
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            time.sleep(0.02)
            if time.monotonic() > hard:
                for p in pids:
                    os.kill(p, signal.SIGKILL)
                errors.append("time limit")
                hard = float("inf")
            continue
        i = pids.pop(pid, None)
        if i is None:
            continue
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            if sig in CRASHES:
                crashed.append((i, sig))
                open(os.path.join(work, "stop"), "w").close()
            else:
                errors.append("shard %d ended by signal %d" % (i, sig))
        elif os.WEXITSTATUS(status) != 0:
            errors.append("shard %d exit %d" % (i, os.WEXITSTATUS(status)))
    results = []
    for i in range(args.shards):
        p = os.path.join(work, "result-%d" % i)
        if os.path.exists(p):
            with open(p) as fh:
                results.append(json.load(fh))
    violations, notes = [], []
    for r in results:
        if r["harness"]:
            errors.append("harness error in %s: %s\nspec: %s" % (
                r["harness"]["test"], r["harness"]["message"], json.dumps(r["harness"]["spec"])))
    fails = sorted((r["failure"] for r in results if r["failure"]), key=lambda f: len(json.dumps(f["spec"])))
    for f in fails:
        path = write_replay(prop, f["test"], f["spec"], f["message"])
        if confirm(prop, path):
            violations.append((path, f["message"]))
            break
        os.remove(path)
        path = write_replay(prop, f["test"], f["spec"], f["message"], f["history"])
        if confirm(prop, path):
            violations.append((path, f["message"] + " (after the cases before it)"))
            break
        os.remove(path)
        errors.append("not reproducible: %s: %s\nspec %s" % (f["test"], f["message"], json.dumps(f["spec"])))
    if not violations:
        for i, sig in crashed:
            try:
                name, text = open(os.path.join(work, "current-%d" % i)).read().split("\n", 1)
            except (OSError, ValueError):
                errors.append("shard %d crashed (signal %d) outside a case" % (i, sig))
                continue
            msg = "the process died of signal %d" % sig
            path = write_replay(prop, name, json.loads(text), msg)
            if confirm(prop, path):
                violations.append((path, msg))
                break
            os.remove(path)
            errors.append("shard %d crashed (signal %d), not reproducible from its case" % (i, sig))
    for k in known_findings(prop):
        path = write_replay(prop, k["test"], k["spec"], k["what"])
        got = confirm(prop, path)
        os.remove(path)
        if got:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            notes.append("known finding: " + k["what"])
        elif got is None:
            errors.append("known finding probe fails: " + k["what"])
    doc = evidence(prop, mod, args.tier, seed, results, time.monotonic() - t0, len(violations), notes)
    c = doc["coverage"]
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, args.tier, seed, c["evaluations"], c["distinct_nontrivial"], doc["wall_s"]))
    if args.verbose:
        print(json.dumps(c["tests"], indent=1))
    for name, t in c["tests"].items():
        if t["shards_out_of_time"]:
            print("  %s: %d of %d cases within the time budget" % (name, t["evaluations"], t["planned"]))
    if violations:
        for path, msg in violations:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + msg[:2000])
        return 1
    if errors:
        for e in sorted(set(errors), key=len)[:2]:
            print("ERROR " + e[:4000], file=sys.stderr)
        print("%d errors" % len(errors), file=sys.stderr)
        return 2
    if c["evaluations"] and not c["distinct_nontrivial"]:
        print("ERROR no non-trivial case was generated", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
