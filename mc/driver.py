"""Controlled solver for the simulation drivers.

The drivers import the Assimulo solvers and the generated modules by name.  Both are replaced here: the solver by
one whose every call of the right-hand side / Jacobian, and whose end state, is dictated by a script (so that all
solver behaviours up to a bound can be enumerated), the generated modules by the code the real generators emitted.
"""
import zlib
import contextlib
import sys
import types

import numpy as np

from . import backends, core, env, kpp, mcm

CF = 2.55e10        # molecules/cc per ppb, the programs' documented conversion


class Fault(Exception):
    """the driver did something a solver could not have accepted"""


class Problem(object):
    """assimulo.problem.Explicit_Problem: copies y0, keeps rhs and t0"""

    def __init__(self, rhs=None, y0=None, t0=0.0, p0=None, sw0=None, name="---", **kw):
        if rhs is not None:
            self.rhs = rhs
        self.y0 = np.array(y0, dtype=float)
        self.t0, self.name = float(t0), name


class Recorder(object):
    """what one simulation did with the solver; `script` decides what the solver does"""

    def __init__(self, script):
        self.script = script
        self.batches = []       # dict(y0, t0, dur, calls, end)
        self.problems = 0
        self.drawing = False    # C16 looks at what is drawn

    def solver_class(rec, kind):
        class Solver(object):
            def __init__(self, problem):
                self.problem = problem
                self.jac_at_init = getattr(problem, "jac", None)
                self.t, self.y = problem.t0, problem.y0.copy()
                self.atol = self.rtol = 1e-6
                self.usejac = True
                rec.problems += 1

            def simulate(self, tfinal, ncp=0, ncp_list=None):
                n = len(self.y)
                if np.ndim(self.atol) and len(np.atleast_1d(self.atol)) not in (1, n):
                    raise Fault("%d tolerances for %d states" % (len(self.atol), n))
                if not tfinal > self.t:
                    raise Fault("simulate(%r) from t=%r" % (tfinal, self.t))
                b = dict(y0=self.y.copy(), t0=self.t, tf=float(tfinal), dur=float(tfinal) - self.t, calls=[],
                         usejac=bool(self.usejac), jac=self.jac_at_init is not None)
                rec.batches.append(b)
                ts, ys = rec.script(len(rec.batches) - 1, self, b)
                self.t, self.y = float(tfinal), np.array(ys[-1], dtype=float)
                b["end"] = self.y.copy()
                return list(ts), np.array(ys)
        Solver.__name__ = kind
        return Solver


def ask(solver, batch, kind, t, y):
    """one solver callback; the solver's own copy of the state must survive it"""
    buf = np.array(y, dtype=float)
    f = solver.problem.rhs if kind == "R" else solver.jac_at_init
    v = np.array(f(t, buf), dtype=float)
    if not np.array_equal(buf, y):
        raise Fault("the %s altered the solver's state" % ("right-hand side" if kind == "R" else "Jacobian"))
    batch["calls"].append((kind, t, np.array(y, dtype=float), v))
    return v


def march(bi, solver, b):
    """a solver that really integrates, to the tolerances it was set to (backward differences, as CVode's)"""
    from scipy.integrate import solve_ivp
    n = len(b["y0"])

    def rhs(t, y):
        return np.array(solver.problem.rhs(t, np.array(y)), dtype=float).reshape(-1)

    def jac(t, y):
        return np.array(solver.jac_at_init(t, np.array(y)), dtype=float).reshape(n, n)
    atol = np.atleast_1d(np.array(solver.atol, dtype=float))
    rtol = float(solver.rtol)
    if not (rtol >= 0 and np.all(atol >= 0) and rtol + atol.min() > 0):
        raise Fault("tolerances %r and %r" % (rtol, list(atol[:3])))
    more = dict(jac=jac) if b["jac"] and b["usejac"] else {}
    r = solve_ivp(rhs, (b["t0"], b["tf"]), b["y0"], method="BDF", rtol=max(rtol, 1e-12), atol=atol if len(atol) == n else atol[0],
                  max_step=float(getattr(solver, "maxh", 0.0)) or np.inf, **more)
    if not r.success:
        raise Fault("the solver gave up: %s" % r.message)
    return list(r.t), list(r.y.T)


def true_path(rhs, jac, y0, t0, times, rtol=1e-7, atol=0.1):
    """the solution at the given times, far more accurately than any driver asks for"""
    from scipy.integrate import solve_ivp
    r = solve_ivp(rhs, (t0, times[-1]), y0, method="BDF", rtol=rtol, atol=atol, t_eval=times, max_step=300.0, jac=jac)
    if not r.success:
        raise RuntimeError("reference integration: " + r.message)
    return r.y.T


@contextlib.contextmanager
def installed(rec, modules):
    """assimulo and the generated modules, importable; anything stale is taken out again afterwards"""
    a = types.ModuleType("assimulo")
    ap, asv = types.ModuleType("assimulo.problem"), types.ModuleType("assimulo.solvers")
    ap.Explicit_Problem = Problem
    for k in ("CVode", "RodasODE", "RungeKutta4", "LSODAR", "Radau5ODE"):
        setattr(asv, k, rec.solver_class(k))
    a.problem, a.solvers = ap, asv
    new = {"assimulo": a, "assimulo.problem": ap, "assimulo.solvers": asv}
    new.update(modules)
    old = {k: sys.modules.get(k) for k in new}
    sys.modules.update(new)
    import matplotlib.pyplot as plt     # the drivers may plot: keep that off the clock
    drawn = () if rec.drawing else ("plot", "show", "title", "legend", "xlabel", "ylabel", "figure", "subplot", "savefig")
    keep = {k: getattr(plt, k) for k in drawn}
    for k in drawn:
        setattr(plt, k, lambda *a, **kw: None)
    try:
        yield
    finally:
        for k, v in keep.items():
            setattr(plt, k, v)
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def mod(name, ns):
    m = types.ModuleType(name)
    m.__dict__.update({k: v for k, v in ns.items() if not k.startswith("__")})
    return m


class Gas(object):
    """a mechanism generated for both gas-phase drivers, with its reference tendency"""
    pool = {"CH3O2", "C2H5O2", "C96O2"}     # the peroxy radicals of the small mechanisms

    def __init__(self, rxns, batch):
        P, C = env.parse_mod(), env.conv_mod()
        self.rxns = rxns
        text = kpp.text(rxns)
        od = backends.parse(text)
        u = self.u = backends.unpack(od)
        self.s2a, self.sd = dict(u["s2a"]), dict(u["sd"])
        self.names = sorted(self.s2a, key=self.s2a.get)
        self.neq, self.ns = u["neq"], u["ns"]
        with core.quiet():
            P.write_rate_file_numba("m", C.convert_rate_mcm_numba(od["rate_dict"]))
            P.write_reactants_indices("m", u["neq"], u["ns"], u["s2a"], u["reac"], u["loss"])
            P.write_loss_gain_matrix("m", u["neq"], u["ns"], u["loss"], u["gain"], u["s2a"])
            P.write_gas_jacobian_numba("m", u["neq"], u["ns"], u["loss"], u["gain"], u["s2a"], u["reac"])
            P.write_RO2_indices("m", u["s2a"])
        self.ro2 = np.load("m_RO2_indices.npy")
        self.numba = {}
        for nm in ("Rate_coefficients_numba", "Reactants_conc_numba", "Loss_Gain_numba", "Jacobian_numba"):
            self.numba[nm] = mod(nm, backends.exec_numba(nm + ".py"))
        od = backends.parse(text)
        u = backends.unpack(od)
        with core.quiet():
            P.write_rate_file_fortran("m", C.convert_rate_mcm_fortran(od["rate_dict"]), False)
            P.write_reactants_indices_fortran("m", u["neq"], u["s2a"], u["reac"], u["loss"], False)
            P.write_loss_gain_fortran("m", u["neq"], u["ns"], u["loss"], u["gain"], u["s2a"], False)
            P.write_gas_jacobian_fortran("m", u["neq"], u["ns"], u["loss"], u["gain"], u["s2a"], u["reac"], False)
        self.f = {k: batch.add(k + ".f90") for k in ("Rate_coefficients", "Reactants_conc", "Loss_Gain", "Jacobian")}
        self.batch = batch
        self._k = {}

    def f2py(self):
        """the generated Fortran behind f2py-like signatures (same argument names, shape checks included)"""
        b, f, neq, ns = self.batch, self.f, self.neq, self.ns

        def arr(x, n, what):
            x = np.ascontiguousarray(x, dtype=float)
            if x.shape != (n,):
                raise Fault("%s of shape %r where (%d,) is needed" % (what, x.shape, n))
            return x

        def evaluate_rates(ro2, h2o, temp, ttime):
            out = np.zeros(neq)
            b.call(f["Rate_coefficients"], ro2, h2o, temp, ttime, out)
            return out

        def reactants(y):
            out = np.zeros(neq)
            b.call(f["Reactants_conc"], arr(y, ns, "y"), out)
            return out

        def loss_gain(r):
            out = np.zeros(ns)
            b.call(f["Loss_Gain"], arr(r, neq, "r"), out)
            return out

        def jacobian(r, y):
            out = np.zeros((ns, ns), order="F")
            b.call(f["Jacobian"], arr(r, neq, "r"), arr(y, ns, "y"), out)
            return out
        return {"rate_coeff_f2py": mod("rate_coeff_f2py", dict(evaluate_rates=evaluate_rates)),
                "reactants_conc_f2py": mod("reactants_conc_f2py", dict(reactants=reactants)),
                "loss_gain_f2py": mod("loss_gain_f2py", dict(loss_gain=loss_gain)),
                "jacobian_f2py": mod("jacobian_f2py", dict(jacobian=jacobian))}

    # ---- reference ----
    def k(self, ro2, H2O, T, t, which="numba"):
        key = (ro2, H2O, T, t, which)
        if key not in self._k:
            if len(self._k) > 20000:
                self._k.clear()
            if which == "f2py":
                # single precision literals make twilight photolysis differ by more than rounding; C02/C03 judge
                # the emitted rates themselves, so the reference here takes them at the true arguments
                out = np.zeros(self.neq)
                self.batch.call(self.f["Rate_coefficients"], ro2, H2O, T, t, out)
                self._k[key] = [float(v) for v in out]
            else:
                e = mcm.environment(T, ro2, H2O, t, "numba")
                self._k[key] = [kpp.evaluate(r.rate, e) for r in self.rxns]
        return self._k[key]

    def reference(self, kind, y, T, H2O, t, RO2, which="numba"):
        d = {n: float(y[i]) for n, i in self.s2a.items()}
        ro2 = sum(v for n, v in d.items() if n in RO2)
        k = self.k(ro2, H2O, T, t, which)
        if kind == "R":
            w, m = kpp.tendency(self.rxns, [kv * kpp.monomial(r, d) for kv, r in zip(k, self.rxns)], self.names)
            return np.array([w[n] for n in self.names]), np.array([m[n] for n in self.names])
        w, m = kpp.jacobian(self.rxns, k, d, self.names)
        return (np.array([[w[(a, b)] for b in self.names] for a in self.names]),
                np.array([[m[(a, b)] for b in self.names] for a in self.names]))


# names a run can have: what follows a dot is part of the name
RUNS = ("m", "MCM_v3.3.1", "m_output", "1", "run 2.csv", "scenario.low_NOx")


def run_name(tag):
    return RUNS[zlib.crc32(tag.encode()) % len(RUNS)]


class NoSwitch(Exception):
    pass


def switched(f):
    import os
    from . import program
    with open(os.path.join(core.REPO, f)) as h:
        t, done = program.settings(h.read(), dict(with_plots=True))
    if not done:
        raise NoSwitch(f)
    return t


def simulate(which, gas, rec, conc, start, sim, batch, T=298.15, RH=0.5, H2O=3.0e17, save=False, fname="m", order=None, plots=False):
    """run one gas-phase driver; returns (value returned, input dict before, after).  plots: with the driver's own
    switch for its figure turned on; NoSwitch where it has none"""
    inp = dict(species_dict=dict(gas.sd), species_dict2array=dict(gas.s2a), species_initial_conc=dict(conc),
               equations=gas.neq)
    if order is not None:
        inp["species_dict2array"] = {gas.names[i]: i for i in order}
        inp["species_dict"] = {i: gas.sd[i] for i in order}
    mods = gas.numba if which == "numba" else gas.f2py()
    with installed(rec, mods):
        f = "ODE_solver.py" if which == "numba" else "f2py/ODE_solver.py"
        m = env.module(f, fresh=True, tree=switched(f) if plots else None)
        with core.quiet():
            if which == "numba":
                out = m.run_simulation(fname, save, start, T, RH, gas.ro2.copy(), H2O, inp, sim, batch)
            else:
                out = m.run_simulation(fname, start, save, T, RH, gas.ro2.copy(), H2O, inp, sim, batch)
    return out, inp
