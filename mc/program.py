"""Run the repository's own simulation programs, each in a fresh process inside a scratch copy of the repository.

Stand-ins: Assimulo -> the scripted solver; UManSysProp -> mc/umsp.py; Numba -> plain Python; the f2py command ->
the emitted Fortran is kept aside at that moment (as f2py's extension would be) and compiled when the module is imported.  Top-level settings of a program (run length, mechanism, reuse, ...) are set in its
syntax tree where they are assigned a constant; whatever is not found keeps the program's own value.
"""
import ast
import builtins
import hashlib
import importlib.abc
import importlib.machinery
import inspect
import os
import pickle
import re
import shutil
import subprocess
import sys
import sysconfig
import types

import numpy as np

from . import backends, core, driver, fortran, umsp

PROGRAMS = {
    "numba": ("Gas_simulation.py", "ODE_solver"),
    "f2py": ("f2py/Gas_simulation_f2py.py", "ODE_solver"),
    "coupled": ("Aerosol/f2py/Aerosol_simulation_f2py.py", "ODE_solver"),
    "fixed": ("Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py", "ODE_solver_fixedyield"),
}


def tree(d, mechanisms=None, xml=None, yields=None):
    """a scratch copy of the repository's sources under d/PyBox with our own mechanism and structure files"""
    top = os.path.join(d, "PyBox")
    for base, dirs, files in os.walk(core.REPO):
        rel = os.path.relpath(base, core.REPO)
        dirs[:] = [x for x in dirs if x not in (".git", "test", "docs", "images", "__pycache__", "mechanism_files")]
        os.makedirs(os.path.join(top, rel), exist_ok=True)
        for f in files:
            if f.endswith(".py"):
                shutil.copy(os.path.join(base, f), os.path.join(top, rel, f))
    os.makedirs(os.path.join(top, "mechanism_files"))
    for name, text in (mechanisms or {}).items():
        mechanism(top, name, text)
    if xml is not None:
        with open(os.path.join(top, "Aerosol", "MCM.xml"), "w") as f:
            f.write(xml)
    for name, text in (yields or {}).items():
        with open(os.path.join(top, "Aerosol/f2py/Fixed_yield", name + ".txt"), "w") as f:
            f.write(text)
    return top


def mechanism(top, name, text):
    with open(os.path.join(top, "mechanism_files", name + ".eqn.txt"), "w") as f:
        f.write(text)


def settings(src, consts):
    """the program with the named constants replaced; returns (code tree, names replaced)"""
    t = ast.parse(src)
    done = set()

    def plain(v):
        return all(isinstance(x, (ast.Constant, ast.UnaryOp, ast.BinOp, ast.operator, ast.unaryop)) for x in ast.walk(v))

    def new(key):
        done.add(key)
        return ast.parse(repr(consts[key]), mode="eval").body

    for n in ast.walk(t):
        if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None:
            continue
        for g in n.targets if isinstance(n, ast.Assign) else [n.target]:
            v = n.value
            if isinstance(g, ast.Name) and g.id in consts and plain(v):
                n.value = new(g.id)
            elif isinstance(g, ast.Tuple) and isinstance(v, ast.Tuple) and len(g.elts) == len(v.elts):
                for i, (a, b) in enumerate(zip(g.elts, v.elts)):
                    if isinstance(a, ast.Name) and a.id in consts and plain(b):
                        v.elts[i] = new(a.id)
            elif isinstance(g, ast.Name) and isinstance(v, ast.Dict):
                for i, k in enumerate(v.keys):
                    if isinstance(k, ast.Constant) and (g.id, k.value) in consts and plain(v.values[i]):
                        v.values[i] = new((g.id, k.value))
            elif isinstance(g, ast.Name) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict":
                for k in v.keywords:
                    if (g.id, k.arg) in consts and plain(k.value):
                        k.value = new((g.id, k.arg))
            elif (isinstance(g, ast.Subscript) and isinstance(g.value, ast.Name) and isinstance(g.slice, ast.Constant)
                  and (g.value.id, g.slice.value) in consts and plain(v)):
                n.value = new((g.value.id, g.slice.value))
    ast.fix_missing_locations(t)
    return t, done


class Decl(fortran.Unit):
    """the declarations of one subroutine"""

    def __init__(self, lines):
        self.decl, self.args = {}, []
        m = re.match(r".*?subroutine\s+(\w+)\s*(?:\(([^)]*)\))?", lines[0][1])
        self.name = m.group(1)
        self.args = [a.strip() for a in (m.group(2) or "").split(",") if a.strip()]
        for k, s in lines[1:]:
            if k != "s":
                continue
            if re.match(r"end\s*subroutine\b|end$|contains$", s):
                break
            try:
                self.declaration(s)
            except fortran.Unsupported:
                pass        # matters only for an argument
        if any(a not in self.decl for a in self.args):
            raise fortran.Unsupported("argument of %s without a declaration" % self.name)


def units(text):
    """the subroutines of a file"""
    L = fortran.logical_lines(text)
    return [L[i:] for i in range(len(L)) if L[i][0] == "s" and re.match(r"(recursive\s+|pure\s+)?subroutine\b", L[i][1])]


def wrappers(path, cache):
    """callables with f2py's conventions for the subroutines in path"""
    with open(path) as f:
        text = f.read()
    key = hashlib.sha1(text.encode()).hexdigest()[:16]
    so = os.path.join(cache, key + ".so")
    if not os.path.exists(so):
        tmp = "%s.%d" % (so, os.getpid())
        p = subprocess_run(backends.GF + ["-O0", path, "-o", tmp])
        if p.returncode:
            raise ImportError("f2py would have failed: " + p.stdout.decode(errors="replace")[-300:])
        os.rename(tmp, so)
    import ctypes
    lib, out = ctypes.CDLL(so), {}
    for lines in units(text):
        u = Decl(lines)
        if hasattr(lib, u.name + "_"):      # not an internal one
            out[u.name] = wrapper(u, getattr(lib, u.name + "_"))
    if not out:
        raise fortran.Unsupported("no subroutine")
    return out


def wrapper(u, fn):
    import ctypes
    outs = [a for a in u.args if u.decl[a]["out"]]
    ins = [a for a in u.args if a not in outs]

    def const(e):
        if e[0] == "num":
            return e[1]
        if e[0] == "par":
            return const(e[1])
        if e[0] == "var":
            return const(u.decl[e[1]]["init"])
        if e[0] in "+-*/":
            a, b = const(e[1]), const(e[2])
            return a + b if e[0] == "+" else a - b if e[0] == "-" else a * b if e[0] == "*" else a // b
        raise fortran.Unsupported("dimension %r" % (e,))
    shapes = {a: tuple(int(const(d)) for d in u.decl[a]["dims"]) for a in u.args}
    dims = shapes.get

    def call(*args, **kw):
        v = dict(zip(ins, args))
        v.update({k.lower(): x for k, x in kw.items()})
        if len(args) > len(ins) or sorted(v) != sorted(ins):
            raise driver.Fault("%s called with %d arguments, it takes %s" % (u.name, len(args) + len(kw), ins))
        keep, ptr, res = [], [], {}
        for a in u.args:
            dt = {"f": np.float64, "i": np.int64, "b": np.int64}[u.decl[a]["type"]]
            sh = dims(a)
            if a in outs:
                x = np.zeros(sh or (1,), dtype=dt, order="F")
                res[a] = x
            else:
                x = np.array(v[a], dtype=dt, order="F")
                if x.shape != sh:
                    if not sh and x.size == 1:
                        x = x.reshape(())
                    else:
                        raise driver.Fault("%s: %s has shape %r, %r is needed" % (u.name, a, x.shape, sh))
            keep.append(x)
            ptr.append(x.ctypes.data_as(ctypes.c_void_p))
        fn(*ptr)
        r = [float(res[a][0]) if not dims(a) else res[a] for a in outs]
        return r[0] if len(r) == 1 else tuple(r)
    return call


_real = (subprocess.run, subprocess.Popen)


def subprocess_run(cmd):
    old, subprocess.Popen = subprocess.Popen, _real[1]
    try:
        return _real[0](cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    finally:
        subprocess.Popen = old


def warm():
    """import the heavy libraries once, before the programs are forked"""
    import matplotlib.pyplot  # noqa: F401
    import pandas  # noqa: F401
    import pybel  # noqa: F401
    import scipy.stats  # noqa: F401
    import scipy.sparse  # noqa: F401


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """extension modules 'built' by the pretended f2py: the library is a file of the usual name, in the folder the
    command ran in, holding the Fortran source of that moment"""

    def __init__(self, cwd, cache):
        self.cwd, self.cache, self.outside = cwd, cache, False

    def library(self, name):
        return os.path.join(self.cwd, name + sysconfig.get_config_var("EXT_SUFFIX"))

    def find_spec(self, name, path=None, target=None):
        if "." not in name and os.path.exists(self.library(name)):
            return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        with open(self.library(m.__name__)) as f:
            src = f.read()
        p = os.path.join(self.cache, "%s_%d.f90" % (m.__name__, os.getpid()))
        with open(p, "w") as f:
            f.write(src)
        try:
            m.__dict__.update(wrappers(p, self.cache))
        except fortran.Unsupported:
            self.outside = True
            raise ImportError("outside what the stand-in for f2py understands: " + core.short_exc())

    def command(self, cmd):
        """what a shell command would have built"""
        s = cmd if isinstance(cmd, str) else " ".join(str(x) for x in cmd)
        if "f2py" not in s:
            return 0
        m = re.search(r"-m\s*(?!numpy\.f2py)([A-Za-z_]\w*)(?![\w.])", s.replace("'", "").replace('"', ""))
        f = re.search(r"(\S+\.f90)\b", s)
        if not m or not f:
            return 0
        if not os.path.exists(f.group(1)):
            return 1
        shutil.copy(f.group(1), self.library(m.group(1)))
        sys.modules.pop(m.group(1), None)
        return 0


def _patch_shell(finder):
    def fake(cmd, *a, **k):
        rc = finder.command(cmd)
        if k.get("check") and rc:
            raise subprocess.CalledProcessError(rc, cmd)
        return subprocess.CompletedProcess(cmd, rc, "" if k.get("text") else b"", "" if k.get("text") else b"")

    class P(object):
        def __init__(self, cmd, *a, **k):
            self.returncode = finder.command(cmd)
            self.stdout = self.stderr = None

        def communicate(self, *a, **k):
            return b"", b""

        def wait(self, *a, **k):
            return self.returncode
        poll = wait

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    os.system = finder.command
    subprocess.run = fake
    subprocess.call = lambda cmd, *a, **k: finder.command(cmd)
    subprocess.check_call = lambda cmd, *a, **k: fake(cmd, check=True).returncode
    subprocess.check_output = lambda cmd, *a, **k: b""
    subprocess.Popen = P


def _fence(top):
    """deleting stays inside the scratch tree"""
    root = os.path.realpath(top) + os.sep

    def guard(f):
        def g(path, *a, **k):
            p = os.path.realpath(os.fspath(path))
            if not p.startswith(root):
                raise driver.Fault("the program deletes %s" % p)
            return f(path, *a, **k)
        return g
    for m, n in ((os, "remove"), (os, "unlink"), (os, "rmdir"), (os, "removedirs"), (shutil, "rmtree")):
        setattr(m, n, guard(getattr(m, n)))


def state(y0, k):
    """solver states reachable from nothing in particular: every entry present and different"""
    p = np.array([2., 3., 5., 7., 11., 13., 17., 19., 23., 29., 31., 37., 41.])
    i = np.arange(len(y0))
    return y0 * (1.0 + 0.01 * p[(i + k) % 13]) + 3.0e7 * p[(i + 3 * k) % 13]


def script(bi, solver, b):
    dt, y0 = b["dur"], b["y0"]
    driver.ask(solver, b, "R", b["t0"], y0)
    driver.ask(solver, b, "R", b["t0"] + 0.5 * dt, state(y0, bi + 1))
    if b["jac"] and b["usejac"]:
        driver.ask(solver, b, "J", b["t0"] + 0.5 * dt, state(y0, bi))
    driver.ask(solver, b, "R", b["tf"], state(y0, bi + 2))
    return [b["t0"], b["tf"]], [y0, state(y0, bi + 3)]


class Numba(backends._NB):
    """plain Python, but leaves and reuses Numba's cache files: one per function in the module's __pycache__, good for as
    long as the module file has the time and size it was made from"""

    def __init__(self):
        backends._NB.__init__(self)

        def jit(*a, **k):
            if len(a) == 1 and callable(a[0]) and not k:
                return a[0]
            return self.cached if k.get("cache") else lambda f: f
        self.jit = self.njit = self.vectorize = jit

    @staticmethod
    def cached(f):
        import marshal
        src = f.__code__.co_filename
        st = os.stat(src)
        d = os.path.join(os.path.dirname(os.path.abspath(src)), "__pycache__")
        name = os.path.join(d, "%s.%s-%d.py%d%d." % (os.path.basename(src)[:-3], f.__qualname__, f.__code__.co_firstlineno, sys.version_info[0], sys.version_info[1]))
        try:
            with open(name + "nbi", "rb") as g:
                stamp, which = pickle.load(g)
            if stamp == (st.st_mtime, st.st_size):
                with open(name + which, "rb") as g:
                    return types.FunctionType(marshal.loads(g.read()), f.__globals__, f.__name__, f.__defaults__)
        except FileNotFoundError:
            pass
        os.makedirs(d, exist_ok=True)
        with open(name + "1.nbc", "wb") as g:
            g.write(marshal.dumps(f.__code__))
        with open(name + "nbi", "wb") as g:
            pickle.dump(((st.st_mtime, st.st_size), "1.nbc"), g)
        return f


def _child(top, which, consts, cache):
    rel, drv = PROGRAMS[which]
    path = os.path.join(top, rel)
    cwd = os.path.dirname(path)
    os.chdir(cwd)
    rec = driver.Recorder(script)
    for k in list(sys.modules):
        if k in ("ODE_solver", "ODE_solver_fixedyield", "Parse_eqn_file", "rate_coeff_conversion", "Size_distributions", "Plotting",
                 "Property_calculation", "PyBox") or k.startswith("PyBox.") or k.endswith("_numba") or k.endswith("_f2py"):
            del sys.modules[k]
    sys.path[:] = [cwd] + [p for p in sys.path if p not in ("", core.REPO) and not p.startswith(core.REPO + "/")]
    finder = Finder(cwd, cache)
    sys.meta_path.insert(0, finder)
    importlib.invalidate_caches()
    _patch_shell(finder)
    _fence(top)
    from openbabel import openbabel
    openbabel.obErrorLog.SetOutputLevel(0)
    umsp.install()
    sys.modules["numba"] = Numba()
    out = dict(error=None, args=None, returned=None)
    try:
        with open(path) as f:
            src = f.read()
    except OSError:
        out.update(error="the program's own file is gone: " + core.short_exc(), batches=[])
        return out
    t, out["set"] = settings(src, consts)
    with driver.installed(rec, {}):
        try:
            d = __import__(drv)
            f = d.run_simulation
            sig = inspect.signature(f)

            def run_simulation(*a, **k):
                try:
                    out["args"] = {n: v for n, v in sig.bind(*a, **k).arguments.items() if n in ("H2O", "temp", "RH", "start_time", "simulation_time", "batch_step")}
                except TypeError:
                    pass
                r = f(*a, **k)
                out["returned"] = r
                return r
            d.run_simulation = run_simulation
        except Exception:
            pass        # the program will say
        ns = {"__name__": "__main__", "__file__": path, "__builtins__": builtins}
        try:
            with core.quiet():
                exec(compile(t, path, "exec"), ns)
        except SystemExit:
            pass
        except driver.Fault as e:
            out["error"] = "Fault: " + str(e)
        except BaseException:
            out["error"] = core.short_exc()
            out["missing"] = isinstance(sys.exc_info()[1], FileNotFoundError)
    out["batches"] = rec.batches
    out["outside"] = finder.outside
    try:
        pickle.dumps(out["returned"])
    except Exception:
        out["returned"] = None
    return out


def run(top, which, consts, cache):
    """one program run in its own process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        core.follow()
        try:
            try:
                out = _child(top, which, consts, cache)
            except BaseException:
                out = dict(error="harness: " + core.short_exc(), batches=[], crash=True)
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return dict(error="the program ended its process", batches=[])
    out = pickle.loads(data)
    if str(out.get("error")).startswith("Hang"):
        core.hung()
    if out.get("crash"):
        raise RuntimeError(out["error"])
    return out


# ------------------------------------------------------------------ what the solver must have been given
class Ref(driver.Gas):
    """a mechanism with the parser's index map, no generated code"""

    def __init__(self, rxns, text):
        self.rxns, self._k = rxns, {}
        od = backends.parse(text)
        self.s2a = dict(od["species_dict2array"])
        self.names = sorted(self.s2a, key=self.s2a.get)
        self.ns, self.neq = len(self.names), od["max_equations"]

    def k(self, ro2, H2O, T, t, which="numba"):
        return driver.Gas.k(self, ro2, H2O, T, t, "numba")


def humidity(T, RH):
    """molecules/cc of water vapour as the programs define it"""
    tc = T - 273.15
    return 0.002166 * RH * 610.78 * np.exp(tc / (tc + 238.3) * 17.2694) / (tc + 273.16) * 1.0e-6 / 18.0e-3 * 6.0221409e23


def batches(out, y0, start, sim, batch, nwant, rhs, tol, jac=None):
    """None or (what, message)"""
    B = out["batches"]
    if out["error"]:
        return "raised", out["error"]
    if len(B) != nwant:
        return "batches", "%d batches for %r s in steps of %r s" % (len(B), sim, batch)
    y, el = y0, 0.0
    for k, b in enumerate(B):
        if b["y0"].shape != y.shape:
            return "start", "batch %d starts with %d values, should be %d" % (k, len(b["y0"]), len(y))
        bad = np.abs(b["y0"] - y) > 1e-6 * np.abs(y)
        if np.any(bad):
            i = int(np.argmax(bad))
            return "start", "batch %d starts with y[%d]=%r, should be %r" % (k, i, float(b["y0"][i]), float(y[i]))
        for kind, t, yy, v in b["calls"]:
            w, m = (rhs if kind == "R" else jac)(yy, start + el + t - b["t0"])
            v = np.asarray(v)
            if v.size != w.size:
                return "shape", "the solver got shape %r" % (v.shape,)
            v = v.reshape(w.shape)
            err = np.abs(v - w) - tol * np.maximum(m, np.abs(w))
            if tol > 1e-7 and np.all(np.isfinite(v)) and np.any(err > 0):
                # single precision constants place the sun up to some milliseconds off, which shows in twilight
                for d in (-0.02, 0.02):
                    err -= np.abs((rhs if kind == "R" else jac)(yy, start + el + t - b["t0"] + d)[0] - w)
            if not np.all(np.isfinite(v)) or np.any(err > 0):
                i = np.unravel_index(int(np.argmax(np.where(np.isfinite(v), err, np.inf))), w.shape)
                return "value" + kind, "batch %d, time of day %r: %s%s = %r, should be %r" % (
                    k, start + el + t - b["t0"], "d/dt of " if kind == "R" else "J", [int(x) for x in i], float(v[i]), float(w[i]))
        el += b["dur"]
        y = b["end"]
    if el < sim * (1 - 1e-6):
        return "cover", "covers %r of %r s" % (el, sim)
    return None
