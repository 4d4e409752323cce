#!/opt/venv/bin/python
"""run.py <check id> [--tier quick|thorough] [--seed N]
   run.py replay <replay file>
   run.py all [--tier T] [ids...]

Runs one check: spawns worker processes (one crypto backend each) that execute the cases of
mon/checks/<id>.py against the code in /repo, merges what their monitors observed, prints
VIOLATION / KNOWN-FINDING lines and rewrites evidence/<id>.json."""

import argparse
import importlib
import json
import os
import random
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

BACKENDS = {
    "tcry": {"EC_BACKEND_FORCE": "1", "EC_BACKEND": "1"},
    "py": {"EC_BACKEND": "0"},
}


def env_for(backend, pyc):
    e = dict(os.environ)
    e.pop("EC_BACKEND", None)
    e.pop("EC_BACKEND_FORCE", None)
    e.update(BACKENDS[backend])
    e.update(
        PYTHONPATH="%s:%s" % (REPO, HERE),
        PYTHONHASHSEED="0",
        PYTHONPYCACHEPREFIX=pyc,
        VERIF_REPO=REPO,
        LANG="C.UTF-8",
    )
    e.pop("PYTHONDONTWRITEBYTECODE", None)
    return e


class Worker:
    def __init__(self, check, backend, seed, tier, pyc, logdir, n):
        self.backend = backend
        r, w = os.pipe()
        os.set_inheritable(w, True)
        e = env_for(backend, pyc)
        e["VERIF_OUT_FD"] = str(w)
        self.log = os.path.join(logdir, "w%d.%s.log" % (n, backend))
        self.p = subprocess.Popen(
            [PY, "-W", "ignore", "-m", "mon.harness", check, backend, str(seed), tier],
            cwd=HERE,
            env=e,
            stdin=subprocess.PIPE,
            stdout=open(self.log, "ab"),
            stderr=subprocess.STDOUT,
            pass_fds=(w,),
        )
        os.close(w)
        self.r = os.fdopen(r, "rb", buffering=0)
        self.buf = b""
        self.job = None

    def give(self, job):
        self.job = job
        try:
            self.p.stdin.write((json.dumps(job) + "\n").encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.r.close()

    def tail(self):
        try:
            with open(self.log, "rb") as f:
                return f.read()[-1500:].decode("utf8", "replace")
        except OSError:
            return ""


def known_for(check):
    p = os.path.join(HERE, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % check):
                rest = line.split(None, 2)[2]
                key, _, text = rest.partition(" ")
                assert key.startswith("key=")
                res.append((key[4:], text))
    return res


def plan(mod, tier, seed):
    """[(backend, family, idx)]"""
    jobs = []
    for name, f in mod.FAMILIES.items():
        n = f.get(tier, f["quick"])
        for backend in f.get("backends", ("tcry", "py")):
            k = n[backend] if isinstance(n, dict) else n
            for i in range(k):
                jobs.append((backend, name, i, f.get("weight", 1)))
    random.Random("plan%s" % seed).shuffle(jobs)
    jobs.sort(key=lambda j: -j[3])  # heavy ones first
    return jobs


def run_check(check, tier, seed, only=None, quiet=False):
    t0 = time.time()
    os.environ.update(BACKENDS["py"])
    sys.path.insert(0, REPO)
    logdir = tempfile.mkdtemp(prefix="verif-%s-" % check)
    pyc = os.path.join(logdir, "pyc")
    os.environ["PYTHONPYCACHEPREFIX"] = pyc
    sys.pycache_prefix = pyc
    # the plan is read by a worker-less import in a child, so that a broken repo is a worker matter
    meta = subprocess.run(
        [PY, "-W", "ignore", os.path.join(HERE, "run.py"), "_plan", check, tier, str(seed)],
        env=env_for("tcry", pyc),
        cwd=HERE,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
    )
    results, crashes = [], []
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "7200"))
    err = None
    try:
        if meta.returncode:
            err = "the code under test cannot be loaded:\n" + meta.stderr.decode("utf8", "replace")[-3000:]
            info = None
        else:
            info = json.loads(meta.stdout.decode().splitlines()[-1])
            jobs = [tuple(j) for j in info["jobs"]]
            if only:
                jobs = [j for j in jobs if (j[0], j[1], j[2]) == only]
            results, crashes, skipped = execute(check, tier, seed, jobs, pyc, logdir, budget)
    finally:
        shutil.rmtree(logdir, ignore_errors=True)
    return finish(check, tier, seed, info, results, crashes, err, t0, skipped if info else 0, bool(only))


def execute(check, tier, seed, jobs, pyc, logdir, budget):
    queues = {}
    for j in jobs:
        queues.setdefault(j[0], []).append(j)
    ncpu = min(8, os.cpu_count() or 4)
    total = sum(j[3] * (4 if j[0] == "py" else 1) for j in jobs) or 1
    workers, results, crashes = [], [], []
    nw = 0
    deadline = time.time() + budget
    sel = selectors.DefaultSelector()

    def spawn(b):
        nonlocal nw
        w = Worker(check, b, seed, tier, pyc, logdir, nw)
        nw += 1
        workers.append(w)
        sel.register(w.r, selectors.EVENT_READ, w)
        feed(w)

    def feed(w):
        q = queues[w.backend]
        if q and time.time() < deadline:
            j = q.pop(0)
            w.give(dict(family=j[1], idx=j[2]))
            return
        w.job = None
        sel.unregister(w.r)
        workers.remove(w)
        w.close()
        # hand the slot to the other backend when it still has work
        rest = sorted(queues, key=lambda b: -len(queues[b]))
        if rest and len(queues[rest[0]]) > 1 and time.time() < deadline:
            spawn(rest[0])

    for b in queues:
        share = sum(j[3] * (4 if b == "py" else 1) for j in queues[b]) / total
        for _ in range(max(1, min(len(queues[b]), round(ncpu * share)))):
            spawn(b)
    while workers:
        for key, _ in sel.select(timeout=5):
            w = key.data
            data = os.read(w.r.fileno(), 1 << 20)
            if not data:
                # died
                rc = w.p.wait()
                job = w.job
                sel.unregister(w.r)
                workers.remove(w)
                crashes.append(dict(backend=w.backend, job=job, rc=rc, tail=w.tail()))
                b = w.backend
                w.close()
                if len(crashes) < 6 and queues[b]:
                    spawn(b)
                continue
            w.buf += data
            while b"\n" in w.buf:
                line, _, w.buf = w.buf.partition(b"\n")
                results.append(json.loads(line))
                feed(w)
    skipped = sum(len(q) for q in queues.values())
    return results, crashes, skipped


def finish(check, tier, seed, info, results, crashes, err, t0, skipped, single):
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    viols = []
    for r in results:
        for v in r["violations"]:
            viols.append(dict(v, family=r["family"], idx=r["idx"], backend=r["backend"]))
    for c in crashes:
        j = c["job"] or {}
        viols.append(
            dict(
                msg="worker process died (rc %s)" % c["rc"],
                key=None,
                detail=dict(tail=c["tail"]),
                family=j.get("family"),
                idx=j.get("idx"),
                backend=c["backend"],
            )
        )
    if err:
        viols.append(dict(msg=err, key=None, detail={}, family=None, idx=None, backend=None))
    known = known_for(check)
    hit = {}
    fresh = []
    for v in viols:
        k = next((k for k, _ in known if v.get("key") == k), None)
        if k:
            hit.setdefault(k, 0)
            hit[k] += 1
        else:
            fresh.append(v)
    counts, keys, samples, fam = {}, set(), [], {}
    for r in results:
        for k, n in r["counts"].items():
            counts[k] = counts.get(k, 0) + n
        keys.update(r["keys"])
        f = fam.setdefault("%s/%s" % (r["family"], r["backend"]), dict(cases=0, observations=0, wall=0.0))
        f["cases"] += 1
        f["observations"] += r["observed"]
        f["wall"] = round(f["wall"] + r["wall"], 2)
    seen_f = set()
    for r in sorted(results, key=lambda r: (r["idx"], r["family"], r["backend"])):
        if r["samples"] and r["family"] not in seen_f and len(samples) < 12:
            seen_f.add(r["family"])
            samples.append(dict(family=r["family"], idx=r["idx"], backend=r["backend"], case=r["samples"][0]))
    observed = sum(r["observed"] for r in results)
    wall = time.time() - t0
    bad = bool(fresh)
    starved = None
    if not single and not bad:
        if not results or observed == 0 or len(keys) < 2:
            starved = "monitors observed nothing"
        elif skipped and skipped > 0.5 * (skipped + len(results)):
            starved = "time budget ended before half of the planned cases ran"
        # every family of the plan must have been observed
        for name in (info or {}).get("families", []):
            if not any(r["family"] == name and r["observed"] for r in results):
                starved = starved or "family %s observed nothing" % name
    ev = dict(
        property=check,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=len(results),
            distinct_nontrivial=len(keys),
            rule=(info or {}).get("rule", "not loaded"),
            samples=samples or [dict(note="no case completed")],
            monitored_assertions=observed,
            events=dict(sorted(counts.items())),
            families=fam,
            not_run_for_time=skipped,
        ),
        assumptions=(info or {}).get("assumptions", []),
        wall_s=round(wall, 2),
        violations=len(fresh),
    )
    if not single:
        with open(os.path.join(ev_dir, check + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    rep_dir = os.path.join(ev_dir, "replay")
    seen = set()
    for n, v in enumerate(fresh):
        sig = (v["msg"][:80], v["family"])
        if sig in seen or len(seen) >= 8:
            continue
        seen.add(sig)
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, "%s-%s-%d.json" % (check, tier, n))
        with open(path, "w") as f:
            json.dump(
                dict(property=check, tier=tier, seed=seed, family=v["family"], idx=v["idx"], backend=v["backend"], violation=v),
                f,
                indent=1,
            )
        print("VIOLATION property=%s replay=%s" % (check, os.path.relpath(path, HERE)))
        print("  [%s/%s #%s] %s" % (v["family"], v["backend"], v["idx"], v["msg"]))
        d = json.dumps(v.get("detail", {}))
        if len(d) > 2:
            print("  %s" % d[:1200])
        for l in (v.get("where") or [])[-6:]:
            print("    " + l[:200])
    for k, text in known:
        if k in hit:
            print("KNOWN-FINDING: property=%s %s (key=%s, seen %d times)" % (check, text, k, hit[k]))
        elif not single and results:
            print("note: known finding %s of %s was not reproduced in this run" % (k, check))
    print(
        "%s %s seed=%s: %d cases, %d assertions observed, %d distinct, %d violations, %.1f s%s"
        % (check, tier, seed, len(results), observed, len(keys), len(fresh), wall, ", %d not run" % skipped if skipped else "")
    )
    if bad:
        return 1
    if starved:
        print("ERROR: %s" % starved)
        return 3
    return 0


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "_plan":
        check, tier, seed = sys.argv[2:5]
        mod = importlib.import_module("mon.checks." + check)
        jobs = plan(mod, tier, seed)
        fams = sorted({j[1] for j in jobs})
        print(json.dumps(dict(jobs=jobs, families=fams, rule=mod.RULE, assumptions=getattr(mod, "ASSUMPTIONS", []))))
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("rest", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--family")
    a = ap.parse_args()
    if a.what == "replay":
        d = json.load(open(a.rest[0]))
        return run_check(d["property"], d["tier"], d["seed"], only=(d["backend"], d["family"], d["idx"]))
    if a.what == "all":
        m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
        rc = 0
        for c in m["checks"]:
            if a.rest and c["property"] not in a.rest:
                continue
            r = subprocess.call([PY, os.path.join(HERE, "run.py"), c["property"], "--tier", a.tier, "--seed", str(a.seed)])
            rc = rc or r
        return rc
    return run_check(a.what, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
