"""Common machinery: runs enumerated cases on the real code in parallel, collects counts, reports violations."""
import concurrent.futures as cf
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
NPROC = int(os.environ.get("MC_PROCS", "8"))
CASE_TIMEOUT = 120  # seconds for one case (a batch of calls that normally takes < 5 s)
HANG_TIMEOUT = 420  # seconds without any finished batch: code stuck where no signal is delivered

_real_stdout = None


def say(line):
    os.write(_real_stdout, (line + "\n").encode())


def quiet():
    """The library prints a lot: keep the real stdout for our own lines."""
    global _real_stdout
    sys.stdout.flush()
    _real_stdout = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)


class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout(f"no answer within {CASE_TIMEOUT} s")


class Rec:
    """What one case reports."""

    def __init__(self):
        self.c = {}
        self.fails = []
        self.outcomes = set()
        self.samples = []

    def add(self, name, n=1):
        self.c[name] = self.c.get(name, 0) + n

    def ev(self, nontrivial=True, n=1):
        self.add("evaluations", n)
        if nontrivial:
            self.add("distinct_nontrivial", n)

    def outcome(self, o):
        if len(self.outcomes) < 2000:
            self.outcomes.add(str(o))

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append(s)

    def fail(self, what, expected=None, observed=None, case=None):
        if len(self.fails) < 5:
            self.fails.append(dict(what=str(what), expected=repr(expected)[:2000], observed=repr(observed)[:2000],
                                   case=repr(case)[:2000] if case is not None else None))
        self.add("failures")


def _run_one(fn, item):
    r = Rec()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        fn(item, r)
    except CaseTimeout as e:
        r.fail(f"did not terminate: {e}", case=item)
    except MemoryError:
        raise
    except Exception:  # whatever escapes comes from driving the real code
        r.fail("unexpected exception: " + traceback.format_exc()[-1500:], case=item)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return r


def _batch(fn, items, cfd):
    out = []
    for it in items:
        r = _run_one(fn, it)
        out.append((r.c, r.fails, r.outcomes, r.samples))
        if len(out) > 3 and sum(1 for o in out if o[1]) > 20:
            break
    # merge
    c, fails, outcomes, samples = {}, [], set(), []
    for (cc, f, o, s), it in zip(out, items):
        for k, v in cc.items():
            c[k] = c.get(k, 0) + v
        fails += [(it, x) for x in f]
        outcomes |= o
        samples = (samples + s)[:2]
    return c, fails[:40], outcomes, samples


class Ctx:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.c, self.outcomes, self.samples, self.notes = {}, set(), [], {}
        self.violations, self.known_hit = [], []
        self.t0 = time.time()
        self.rule = ""
        self.assumptions = []
        self.exhaustive = True
        self.groups = {}
        self.known = load_known(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def fail_fast(self):
        return len(self.violations) >= 3

    def cases(self, fn, items, batch=None, group=None):
        """Run fn(item, rec) for every item on all cores."""
        items = list(items)
        if not items or self.fail_fast():
            return
        if self.seed and len(items) > 1:  # the seed only rotates the order
            k = self.seed % len(items)
            items = items[k:] + items[:k]
        batch = batch or max(1, min(200, len(items) // (NPROC * 4) or 1))
        # interleave so that batches have similar cost
        nb = -(-len(items) // batch)
        batches = [items[i::nb] for i in range(nb)]
        before = dict(self.c)
        if NPROC == 1 or len(batches) == 1 and os.environ.get("MC_SERIAL"):
            for b in batches:
                self._merge(fn, *_batch(fn, b, None))
        else:
            self._pool(fn, batches)
        g = group or fn.__name__
        self.groups[g] = {k: self.c[k] - before.get(k, 0) for k in self.c if self.c[k] != before.get(k, 0)}
        self.groups[g]["items"] = len(items)
        self.groups[g]["at_s"] = round(time.time() - self.t0, 1)

    def _pool(self, fn, batches):
        ex = cf.ProcessPoolExecutor(min(NPROC, len(batches)), mp_context=mp.get_context("fork"))
        try:
            pending = {ex.submit(_batch, fn, b, None): b for b in batches}
            while pending:
                done, _ = cf.wait(pending, timeout=HANG_TIMEOUT, return_when=cf.FIRST_COMPLETED)
                if not done:
                    b = next(iter(pending.values()))
                    self._violation(fn, b[0], dict(what=f"did not terminate: no batch finished within {HANG_TIMEOUT} s", expected=None, observed=None, case=repr(b)[:1000]))
                    for p in list(ex._processes.values()):
                        p.kill()
                    break
                for f in done:
                    b = pending.pop(f)
                    try:
                        self._merge(fn, *f.result())
                    except cf.process.BrokenProcessPool:
                        self._crash(fn, [b] + list(pending.values()))
                        pending = {}
                        break
                if self.fail_fast():
                    break
        finally:
            for p in list((ex._processes or {}).values()):
                if self.fail_fast():
                    p.kill()
            ex.shutdown(wait=not self.fail_fast(), cancel_futures=True)

    def _crash(self, fn, batches):
        """A worker died (memory error in compiled code): find the case, one process each."""
        for b in batches[:16]:
            for it in b:
                pid = os.fork()
                if pid == 0:
                    try:
                        _run_one(fn, it)
                    finally:
                        os._exit(0)
                _, st = os.waitpid(pid, 0)
                if os.WIFSIGNALED(st):
                    self._violation(fn, it, dict(what=f"the process died with signal {os.WTERMSIG(st)}", expected=None, observed=None, case=repr(it)[:1000]))
                    return
        self._violation(fn, batches[0][0], dict(what="a worker process died", expected=None, observed=None, case=None))

    def _merge(self, fn, c, fails, outcomes, samples):
        for k, v in c.items():
            self.c[k] = self.c.get(k, 0) + v
        if len(self.outcomes) < 20000:
            self.outcomes |= outcomes
        self.samples = (self.samples + samples)[:6]
        for it, f in fails:
            self._violation(fn, it, f)

    def direct(self, fn, item):
        """Run a single case in this process."""
        r = _run_one(fn, item)
        self._merge(fn, r.c, [(item, f) for f in r.fails], r.outcomes, r.samples)

    def _violation(self, fn, item, f):
        for k in self.known:
            if k["key"] in f["what"] or (f["case"] and k["key"] in f["case"]):
                self.known_hit.append(k)
                return
        if len(self.violations) >= 20:
            return
        self.violations.append((fn.__module__, fn.__name__, item, f))

    def finish(self):
        outdir = os.path.join(ROOT, "out")
        os.makedirs(outdir, exist_ok=True)
        for k in self.known:
            if k in self.known_hit:
                say(f"KNOWN-FINDING: property={self.pid} {k['text']}")
        for n, (mod, name, item, f) in enumerate(self.violations[:3]):
            path = os.path.join(outdir, f"{self.pid}-{n}.json")
            with open(path, "w") as fp:
                json.dump(dict(property=self.pid, module=mod, fn=name, item=item, **f), fp, indent=1, default=str)
            say(f"  {name}: {f['what'][-600:]}\n    case: {f['case']}\n    expected: {f['expected'][:300] if f['expected'] else ''}\n    observed: {f['observed'][:300] if f['observed'] else ''}")
            say(f"VIOLATION property={self.pid} replay={path}")
        cov = dict(self.c)
        cov.pop("failures", None)
        cov["distinct_outcomes"] = len(self.outcomes)
        cov["samples"] = self.samples or [str(s) for s in list(self.outcomes)[:3]]
        cov["exhaustive"] = self.exhaustive and not self.violations
        cov["rule"] = self.rule
        cov["groups"] = self.groups
        cov.update(self.notes)
        need = dict(exploration=["evaluations", "distinct_nontrivial"], fault_enumeration=["evaluations", "distinct_nontrivial"],
                    model_checking=["states", "transitions", "traces_validated_against_impl"])[self.level]
        for k in need:
            cov.setdefault(k, 0)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1, default=str)
        say(f"{self.pid} {self.tier}: " + ", ".join(f"{k}={cov[k]}" for k in cov if isinstance(cov[k], int)) +
            f", wall={ev['wall_s']}s" + (f", VIOLATIONS={len(self.violations)}" if self.violations else ", held"))
        return 1 if self.violations else 0


def load_known(pid):
    """known-findings.txt: 'KNOWN-FINDING: property=Cxx key="..." text' suppress; 'fixed: ...' lines suppress nothing."""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"KNOWN-FINDING: property={pid} "):
                rest = line.split(" ", 2)[2].strip()
                key = rest.split('key="', 1)[1].split('"', 1)[0]
                out.append(dict(key=key, text=rest))
    return out


def close(a, b, tol):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isfinite(a)) and np.all(np.isfinite(b)) and np.all(np.abs(a - b) <= tol))


def scratch(name):
    """A private scratch directory of this process (removed with the run)."""
    d = os.path.join(os.environ["MC_SCRATCH"], f"{name}-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    return d


product = itertools.product
