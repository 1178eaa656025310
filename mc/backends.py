"""Run the real generators of /repo on a network and execute what they emit."""
import ctypes
import os
import re
import subprocess
import sys
import types

import numpy as np

from . import core, env

GF = ["gfortran", "-shared", "-fPIC", "-w", "-finit-real=nan"]     # what is never set must not look like a number


# ------------------------------------------------------------------ parse
def parse(text, fname="mech.eqn.txt"):
    P = env.parse_mod()
    with open(fname, "w") as f:
        f.write(text)
    with core.quiet():
        return P.extract_mechanism(fname, {"Full_eqn": 0})


def unpack(od):
    return dict(rate=od["rate_dict"], reac=od["rate_dict_reactants"], loss=od["loss_dict"], gain=od["gain_dict"],
                s2a=od["species_dict2array"], sd=od["species_dict"], neq=od["max_equations"], ns=len(od["species_dict"]))


def nested(d):
    """deep plain copy that drops empty entries: what the dictionaries mean"""
    return {k: dict(v) for k, v in d.items() if len(v)}


# ------------------------------------------------------------------ numba side
class _NB(types.ModuleType):
    """numba replaced by plain Python: the emitted function bodies run unjitted"""
    f8 = staticmethod(lambda *a, **k: None)

    def __init__(self):
        types.ModuleType.__init__(self, "numba")

        def jit(*a, **k):
            if len(a) == 1 and callable(a[0]) and not k:
                return a[0]
            return lambda f: f
        self.jit = self.njit = self.vectorize = jit
        self.float64 = self.int32 = self.f8
        self.prange = range


_nbstub = _NB()


def exec_numba(path):
    """execute an emitted numba module with numba stubbed out; returns its namespace"""
    with open(path) as f:
        src = f.read()
    ns = {"__name__": "emitted"}
    old = sys.modules.get("numba")
    sys.modules["numba"] = _nbstub
    try:
        exec(compile(src, path, "exec"), ns)
    finally:
        if old is not None:
            sys.modules["numba"] = old
        else:
            del sys.modules["numba"]
    return ns


def import_numba(path, modname):
    """the emitted module compiled by the real numba (no disk cache)"""
    with open(path) as f:
        src = f.read()
    src = src.replace("cache=True", "cache=False")
    ns = {"__name__": modname}
    exec(compile(src, path, "exec"), ns)
    return ns


def load_sparse(path):
    from scipy.sparse import csr_matrix
    l = np.load(path)
    return csr_matrix((l["data"], l["indices"], l["indptr"]), shape=l["shape"]).toarray()


# ------------------------------------------------------------------ Fortran side
class FortranBatch(object):
    """collect emitted subroutines under unique names, compile them to one library, call by ctypes"""

    def __init__(self, d, flags=("-O0",), tag="b"):
        self.d, self.flags, self.tag = d, list(flags), tag
        self.src, self.n = [], 0
        self.lib = None

    def add(self, path):
        with open(path) as f:
            t = f.read()
        m = re.search(r"(?im)^\s*subroutine\s+(\w+)", t)
        name = m.group(1)
        new = "s%s%d" % (self.tag, self.n)
        self.n += 1
        t = re.sub(r"(?i)\bsubroutine\s+%s\b" % name, "subroutine " + new, t)
        self.src.append((new, t))
        return new

    def build(self, nproc=1):
        parts = core.chunks(self.src, nproc)
        procs = []
        for i, p in enumerate(parts):
            base = os.path.join(self.d, "%s_%d" % (self.tag, i))
            with open(base + ".f90", "w") as f:
                f.write("\n".join(t for _, t in p))
            procs.append((base, p, subprocess.Popen(GF + self.flags + [base + ".f90", "-o", base + ".so"],
                                                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        self.sym = {}
        self.errors = {}
        for base, p, pr in procs:
            out = pr.communicate()[0].decode(errors="replace")
            if pr.returncode:
                # find which subroutine does not compile: one at a time
                for nm, t in p:
                    b1 = os.path.join(self.d, nm)
                    with open(b1 + ".f90", "w") as f:
                        f.write(t)
                    r = subprocess.run(GF + self.flags + [b1 + ".f90", "-o", b1 + ".so"], stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT)
                    if r.returncode:
                        self.errors[nm] = r.stdout.decode(errors="replace")[-600:]
                    else:
                        self.sym[nm] = getattr(ctypes.CDLL(b1 + ".so"), nm + "_")
                continue
            lib = ctypes.CDLL(base + ".so")
            for nm, _ in p:
                self.sym[nm] = getattr(lib, nm + "_")
        self.src = []
        return self

    def call(self, nm, *args):
        """args: float -> scalar by reference; ndarray -> pointer"""
        keep, a = [], []
        for x in args:
            if isinstance(x, np.ndarray):
                keep.append(x)
                a.append(x.ctypes.data_as(ctypes.c_void_p))
            else:
                c = ctypes.c_double(float(x))
                keep.append(c)
                a.append(ctypes.byref(c))
        self.last = keep
        self.sym[nm](*a)


class Controlled(FortranBatch):
    """emitted OpenMP subroutines compiled with -fopenmp and -fsanitize=thread, both run-time libraries replaced by
    controlled.c: the threads run under a chosen schedule and every access to shared memory is recorded"""

    def __init__(self, d, tag="k"):
        FortranBatch.__init__(self, d, (), tag)
        self.unknown = set()

    def link(self, base, text):
        """None, or why the text cannot be run under control"""
        with open(base + ".f90", "w") as f:
            f.write(text)
        own = os.path.join(self.d, "controlled.o")
        if not os.path.exists(own):
            subprocess.run(["gcc", "-O1", "-fno-builtin", "-fPIC", "-w", "-c", os.path.join(os.path.dirname(os.path.abspath(__file__)), "controlled.c"), "-o", own], check=True)
        for step in ([x for x in GF if x != "-shared"] + ["-O0", "-fopenmp", "-fsanitize=thread", "-c", base + ".f90", "-o", base + ".o"],
                     ["gcc", "-shared", "-Wl,-Bsymbolic", base + ".o", own, "-lgfortran", "-lm", "-o", base + ".so"]):
            r = subprocess.run(step, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return r.stdout.decode(errors="replace")[-400:]
        left = subprocess.run(["nm", "-u", base + ".so"], stdout=subprocess.PIPE).stdout.decode()
        left = sorted(set(re.findall(r"\b(?:GOMP_|GOACC_|omp_|__tsan_)\w+", left)))
        return "run-time calls that are not modelled: " + " ".join(left) if left else None

    def build(self, nproc=1):
        self.sym, self.errors, self.lib = {}, {}, {}
        whole = os.path.join(self.d, self.tag + "_all")
        if self.link(whole, "\n".join(t for _, t in self.src)) is None:
            parts = [(whole, self.src)]
        else:
            parts = []
            for nm, t in self.src:
                why = self.link(os.path.join(self.d, nm), t)
                if why is None:
                    parts.append((os.path.join(self.d, nm), [(nm, t)]))
                else:
                    self.errors[nm] = why
        for base, p in parts:
            lib = ctypes.CDLL(base + ".so")
            for nm, _ in p:
                self.sym[nm], self.lib[nm] = getattr(lib, nm + "_"), lib
        self.src = []
        return self

    def run(self, nm, threads, order, claim, call):
        """call() under the schedule: order of the threads between barriers, claim[k] the thread that takes section k;
        returns the conflicts as text"""
        lib = self.lib[nm]
        lib.mc_schedule(threads, (ctypes.c_int * threads)(*order), len(claim), (ctypes.c_int * max(1, len(claim)))(*claim))
        call()
        out = []
        for i in range(lib.mc_conflicts()):
            a, one, two, kind = ctypes.c_uint64(), ctypes.c_int(), ctypes.c_int(), ctypes.c_int()
            lib.mc_conflict(i, ctypes.byref(a), ctypes.byref(one), ctypes.byref(two), ctypes.byref(kind))
            where = "a local variable"
            for n, b in enumerate(self.last):
                k = a.value - (b.ctypes.data if isinstance(b, np.ndarray) else ctypes.addressof(b))
                size, item = (b.nbytes, b.itemsize) if isinstance(b, np.ndarray) else (8, 8)
                if 0 <= k < size:
                    where = "argument %d, element %d" % (n + 1, k // item + 1)
            out.append("%s: threads %s and %d, %s" % (where, one.value if one.value >= 0 else "several", two.value, "both write" if kind.value == 2 else "one writes"))
        return sorted(set(out)), lib.mc_accesses()


class Held(object):
    """a context whose violations wait until it is known that what reported them can be trusted"""

    def __init__(self, ctx):
        self.__dict__.update(ctx=ctx, waiting=[])

    def violation(self, *a):
        self.waiting.append(a)

    def __getattr__(self, k):
        return getattr(self.ctx, k)

    def __setattr__(self, k, v):
        setattr(self.ctx, k, v)

    def release(self):
        for a in self.waiting:
            self.ctx.violation(*a)


def schedules(sections, thorough=False):
    """thread counts, orders and claims under which code with that many independent sections is run"""
    import itertools
    out = [(1, (0,), (0,))]
    s = max(2, min(64, sections))
    for t in sorted({2, 3, s} & set(range(2, 65))):
        out += [(t, tuple(range(t)), ()), (t, tuple(reversed(range(t))), ())]
    if s <= (5 if thorough else 4):
        out += [(s, o, ()) for o in itertools.permutations(range(s))]
        for c in itertools.product((0, 1), repeat=s):
            out += [(2, (0, 1), c), (2, (1, 0), c)]
    else:
        for c in [(0,), (1,), (1, 0), (0, 0, 1), (0, 1, 1)]:
            out += [(2, (0, 1), c), (2, (1, 0), c)]
    return list(dict.fromkeys(out))


def close(a, b, rtol, scale=0.0):
    """a, b finite and equal up to rtol of the larger magnitude (or of the given scale)"""
    if not (np.isfinite(a) and np.isfinite(b)):
        return False
    return abs(a - b) <= rtol * max(abs(a), abs(b), scale)
