"""Shared plumbing of the checks: scratch space, counters, violations, evidence, known findings.

Every check is a function run(ctx).  It enumerates a bounded space completely, drives the code in
/repo (imported from the working tree, never from a copy under /verif) and calls ctx.violation()
for every explored state on which the observed behaviour differs from the reference model.
"""
import contextlib
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYBOX_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")
MAX_VIOLATIONS = 12


class Stop(Exception):
    """Raised to end an exploration early once enough violations are on record."""


class ReplayOnly(Exception):
    pass


def load_known(prop):
    """signatures listed as open findings for this property (fixed: lines suppress nothing)."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("finding:"):
                    continue
                # finding: property=C01 sig=<signature> :: text
                head, _, text = line.partition(" :: ")
                parts = dict(p.split("=", 1) for p in head.split()[1:] if "=" in p)
                if parts.get("property") == prop:
                    out[parts["sig"]] = text
    return out


class Ctx(object):
    def __init__(self, prop, level, tier, seed):
        self.prop, self.level, self.tier, self.seed = prop, level, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.violations = {}
        self.known = load_known(prop)
        self.known_hit = {}
        self.exhaustive = True
        self.scratch = tempfile.mkdtemp(prefix="pybox_mc_%s_" % prop)
        self.outcomes = set()

    # ---- bookkeeping -------------------------------------------------------------------
    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, obj, limit=8):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def outcome(self, obj):
        """remember a digest of an observed outcome, so vacuous exploration is visible"""
        self.outcomes.add(hashlib.md5(repr(obj).encode()).hexdigest())

    def violation(self, sig, message, case):
        """sig: short stable identification of the failing input/site/history."""
        sig = "".join(c if (c.isalnum() or c in "._-+*") else "_" for c in sig)[:110]
        if sig in self.known:
            self.known_hit[sig] = self.known[sig]
            return
        if sig not in self.violations:
            self.violations[sig] = (message, case)
            if len(self.violations) >= MAX_VIOLATIONS:
                raise Stop()

    def merge(self, part):
        """merge what a worker process returned (see WorkerCtx.export)."""
        self.states += part["states"]
        self.transitions += part["transitions"]
        self.traces += part["traces"]
        self.evaluations += part["evaluations"]
        for k, v in part["extra"].items():
            self.extra[k] = self.extra.get(k, 0) + v
        for s in part["samples"]:
            self.sample(s)
        self.outcomes |= part["outcomes"]
        for sig, text in part["known_hit"].items():
            self.known_hit[sig] = text
        for sig, (m, c) in part["violations"].items():
            if sig not in self.violations and len(self.violations) < MAX_VIOLATIONS:
                self.violations[sig] = (m, c)

    def export(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    evaluations=self.evaluations, extra=self.extra, samples=self.samples,
                    outcomes=self.outcomes, known_hit=self.known_hit, violations=self.violations)

    # ---- end of run --------------------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.extra)
        cov["samples"] = self.samples or ["(none)"]
        cov["exhaustive"] = bool(self.exhaustive and not self.violations)
        cov["distinct_outcomes"] = len(self.outcomes)
        if self.level == "model_checking":
            cov["states"] = int(self.states)
            cov["transitions"] = int(self.transitions)
            cov["traces_validated_against_impl"] = int(self.traces)
        else:
            cov["evaluations"] = int(self.evaluations)
            cov["distinct_nontrivial"] = int(self.states)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 3), violations=len(self.violations))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write("\n")
        for sig in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, self.known_hit[sig], sig))
        rc = 0
        for sig, (msg, case) in self.violations.items():
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s.json" % (self.prop, hashlib.md5(sig.encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, signature=sig, message=msg, case=case), f, indent=1,
                          default=str)
                f.write("\n")
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("    %s: %s" % (sig, msg[:600]))
            rc = 1
        print("%s %s: states=%d transitions=%d traces=%d evaluations=%d outcomes=%d %.1fs -> %s" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, self.evaluations,
            len(self.outcomes), wall, "VIOLATED" if rc else "held"))
        sys.stdout.flush()
        shutil.rmtree(self.scratch, ignore_errors=True)
        return rc


class Hang(Exception):
    """the code under test did not come back"""


PATIENCE = [150.0, 0]      # seconds for one call of the code under test (these take well under a second); hangs so far


def hung():
    PATIENCE[0] = min(PATIENCE[0], 5.0)
    PATIENCE[1] += 1


def _late(*a):
    hung()
    raise Hang("no answer")


@contextlib.contextmanager
def quiet():
    """swallow what the code under test prints; interrupt it when it does not come back"""
    out = io.StringIO()
    if PATIENCE[1] > 4:
        raise Hang("no answer to earlier calls")
    import threading
    arm = threading.current_thread() is threading.main_thread() and signal.getitimer(signal.ITIMER_REAL)[0] == 0
    if arm:
        old = signal.signal(signal.SIGALRM, _late)
        signal.setitimer(signal.ITIMER_REAL, PATIENCE[0], 1.0)
    try:
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        if arm:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def workdir(base=None):
    """a fresh scratch directory as current directory, removed afterwards"""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="w_", dir=base)
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def short_exc():
    et, ev, tb = sys.exc_info()
    last = traceback.extract_tb(tb)[-1]
    return "%s: %s (at %s:%d)" % (et.__name__, str(ev)[:200], os.path.basename(last.filename), last.lineno)


def chunks(seq, n):
    seq = list(seq)
    n = max(1, min(n, len(seq) or 1))
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]


def parallel(ctx, work, items, nproc=8, nchunks=None):
    """run work(subctx, chunk) over all items in forked processes and merge; nothing is sampled."""
    import multiprocessing as mp
    items = list(items)
    if not items:
        return
    parts = [items[i::(nchunks or nproc)] for i in range(nchunks or nproc)]
    parts = [p for p in parts if p]
    q = mp.get_context("fork")
    with q.Pool(min(nproc, len(parts)), initializer=_init, initargs=(ctx, work)) as pool:
        for res in pool.imap_unordered(_call, parts):
            if "crash" in res:
                raise RuntimeError("worker failed:\n" + res["crash"])
            ctx.merge(res)


_G = {}


def follow():
    """end with the parent"""
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)


def _init(ctx, work):
    follow()
    _G["ctx"], _G["work"] = ctx, work


def _call(part):
    base = _G["ctx"]
    sub = Ctx.__new__(Ctx)
    sub.__dict__.update(base.__dict__)
    sub.states = sub.transitions = sub.traces = sub.evaluations = 0
    sub.extra, sub.samples, sub.violations, sub.known_hit, sub.outcomes = {}, [], {}, {}, set()
    sub.scratch = tempfile.mkdtemp(prefix="p_", dir=base.scratch)
    try:
        try:
            _G["work"](sub, part)
        except Stop:
            pass
        return sub.export()
    except BaseException:
        return dict(crash=traceback.format_exc())
    finally:
        shutil.rmtree(sub.scratch, ignore_errors=True)
