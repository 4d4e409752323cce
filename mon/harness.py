"""Worker side of a check: runs cases of mon/checks/<id>.py in this process, watches them, and
reports one JSON line per case on a dedicated pipe."""

import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, msg, /, key=None, **detail):
        super().__init__(msg)
        self.msg, self.key, self.detail = msg, key, detail


class CaseTimeout(BaseException):
    pass


def jsonable(x, depth=0):
    if isinstance(x, (bytes, bytearray, memoryview)):
        b = bytes(x)
        return b.hex() if len(b) <= 400 else b[:400].hex() + "...(%d)" % len(b)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x if not isinstance(x, str) or len(x) < 4000 else x[:4000]
    if isinstance(x, dict) and depth < 6:
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)) and depth < 6:
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:400]


class Case:
    def __init__(self, check, family, idx, seed, backend, tier):
        self.check_id, self.family, self.idx, self.seed, self.backend, self.tier = check, family, idx, seed, backend, tier
        self.rng = random.Random("%s/%s/%s/%s" % (seed, check, family, idx))
        self.counts = {}
        self.keys = set()
        self.samples = []
        self.info = {}
        self.violations = []
        self.observed = 0

    # -- monitors ------------------------------------------------------------
    def ok(self, cond, msg, /, key=None, **detail):
        """A monitored assertion."""
        self.observed += 1
        if not cond:
            raise Violation(msg, key, **detail)

    def eq(self, got, exp, msg, /, key=None, **detail):
        self.observed += 1
        if got != exp:
            raise Violation(msg, key, got=got, expected=exp, **detail)

    def soft(self, cond, msg, /, key=None, **detail):
        """Like ok, but the case goes on (used for independent findings)."""
        self.observed += 1
        if not cond:
            self.violations.append(dict(msg=msg, key=key, detail=jsonable(detail)))
        return cond

    def fail(self, msg, /, key=None, **detail):
        raise Violation(msg, key, **detail)

    def refused(self, fn, msg, /, key=None, exc=Exception, **detail):
        """fn must raise."""
        self.observed += 1
        try:
            r = fn()
        except exc:
            return None
        raise Violation(msg, key, returned=r, **detail)

    # -- branching -----------------------------------------------------------
    def fork(self, fn, *a, timeout=90, **k):
        """Runs fn in a forked copy of this process, so that the state of device and host branches
        without the code under test having to support copying; merges what its monitors saw."""
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.alarm(0)
                self.counts, self.keys, self.samples, self.violations, self.observed = {}, set(), [], [], 0
                err = None
                signal.alarm(timeout)
                try:
                    fn(*a, **k)
                except Violation as e:
                    self.violations.append(dict(msg=e.msg, key=e.key, detail=jsonable(e.detail), where=short_tb()))
                except CaseTimeout:
                    self.violations.append(dict(msg="no answer within %d s" % timeout, key=None, detail={}, where=short_tb()))
                except BaseException as e:
                    self.violations.append(
                        dict(msg="unexpected %s: %s" % (type(e).__name__, str(e)[:300]), key=None, detail={}, where=short_tb())
                    )
                signal.alarm(0)
                out = json.dumps(
                    dict(counts=self.counts, keys=sorted(self.keys), samples=self.samples, observed=self.observed, violations=self.violations)
                ).encode()
                while out:
                    out = out[os.write(w, out) :]
            finally:
                os._exit(0)
        os.close(w)
        buf = b""
        try:
            while True:
                d = os.read(r, 1 << 16)
                if not d:
                    break
                buf += d
        except CaseTimeout:
            os.kill(pid, signal.SIGKILL)
            raise
        finally:
            os.close(r)
            os.waitpid(pid, 0)
        if not buf:
            raise RuntimeError("forked branch died without a report")
        d = json.loads(buf)
        for n, v in d["counts"].items():
            self.count(n, v)
        self.keys.update(d["keys"])
        self.observed += d["observed"]
        for v in d["violations"]:
            if len(self.violations) < 12:
                self.violations.append(v)
        for x in d["samples"]:
            self.sample(x)
        return not d["violations"]

    # -- coverage ------------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def distinct(self, *key):
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))


def run(coro):
    """Drives a coroutine to its end (the code under test never really waits)."""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value


def load(check):
    return importlib.import_module("mon.checks." + check)


def run_case(mod, check, family, idx, seed, backend, tier, timeout):
    c = Case(check, family, idx, seed, backend, tier)
    fn = mod.FAMILIES[family]["fn"]
    t0 = time.time()

    def on_alarm(*a):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(timeout)
    try:
        fn(c)
    except Violation as e:
        c.violations.append(dict(msg=e.msg, key=e.key, detail=jsonable(e.detail), where=short_tb()))
    except CaseTimeout:
        c.violations.append(dict(msg="no answer within %d s" % timeout, key=None, detail={}, where=short_tb()))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        c.violations.append(
            dict(
                msg="unexpected %s: %s" % (type(e).__name__, str(e)[:300]),
                key=None,
                detail={},
                where=short_tb(),
            )
        )
    finally:
        signal.alarm(0)
    return dict(
        family=family,
        idx=idx,
        backend=backend,
        wall=round(time.time() - t0, 3),
        counts=c.counts,
        keys=sorted(c.keys),
        samples=c.samples,
        observed=c.observed,
        violations=c.violations,
        info=jsonable(c.info),
    )


def short_tb():
    return [l.strip().replace("\n", " | ") for l in traceback.format_exc().splitlines()[-60:]]


def worker():
    check, backend, seed, tier = sys.argv[1:5]
    out = os.fdopen(int(os.environ["VERIF_OUT_FD"]), "w")
    mod = load(check)
    timeout = getattr(mod, "CASE_TIMEOUT", 240)
    if tier == "thorough":
        timeout *= 3
    for line in sys.stdin:
        job = json.loads(line)
        r = run_case(mod, check, job["family"], job["idx"], seed, backend, tier, timeout)
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    worker()
