"""C09: the gas-phase drivers hand the solver the mechanism's own tendency and Jacobian at the true time of day, chain
their batches, cover the requested time and report aligned output - whatever the solver does.

The solver is replaced by a scripted one (mc/driver.py); every script up to a bound, every (simulation, batch)
lattice point, every start time, every set of initial species and every mechanism of a small pool is run through the
real drivers (Numba and f2py) on top of the code the real generators emit.  Oracle: mc/kpp.py + mc/mcm.py.
"""
import csv
import itertools
import os
from fractions import Fraction

import numpy as np

from mc import backends, core, driver, kpp, nets

R = kpp.Rxn
MECHS = {
    "full": [R(["APINENE", "O3"], ["0.5CH3O2", "PINONIC"], "1.01D-15*EXP(-580/TEMP)"),
             R(["CH3O2"], ["HCHO"], "2.4D-14*RO2*EXP(300/TEMP)"),
             R(["O3", "hv"], ["O1D"], "J(1)"),
             R(["O1D"], ["OH", "OH"], "1.0D-18*H2O"),
             R(["OH", "APINENE"], ["C2H5O2"], "1.2D-11*EXP(440/TEMP)"),
             R(["C2H5O2"], ["O3", "PINONIC"], "3.1D-13*RO2"),
             R(["C2H5O2", "C2H5O2"], ["APINENE"], "3.3D-13"),
             R(["HCHO", "hv"], ["OH"], "J(11)*3.0"),
             R(["O1D", "AIR"], ["O3", "AIR"], "2.0D-21"),
             R(["H2O"], ["H2O", "OH"], "1.0D-9*J(4)")],
    "dark": [R(["A", "B"], ["C"], "1.0D-12*TEMP"), R(["2C"], ["B", "A", "A"], "4.0D-14"), R(["C"], [], "1.0D-3")],
    "ro2first": [R(["CH3O2"], ["X"], "1.0D-13*RO2"), R(["X", "hv"], ["CH3O2", "C96O2"], "J(4)"),
                 R(["C96O2"], ["X"], "7.0D-14*RO2*1.5"), R(["HO2", "C96O2"], ["X"], "1.0D-12")],
    "one": [R(["NO2", "hv"], ["NO"], "J(4)")],
    "single": [R(["X"], [], "2.0D-4*H2O*1.0D-17")],
    # more species than letters, or than two digits number; peroxy radicals among the first, the last and the middle
    "wide": [R(["W%d" % i, "W%d" % ((7 * i + 3) % 117)], ["%.1fW%d" % (0.5 + i % 3, (i + 1) % 117)], "%d.0D-1%d" % (1 + i % 9, 2 + i % 5)) for i in range(117)] +
            [R(["CH3O2", "W5"], ["C2H5O2"], "1.0D-13*RO2"), R(["C2H5O2", "hv"], ["W9"], "J(4)"), R(["W9"], ["C96O2"], "1.0D-5"), R(["C96O2", "W100"], ["CH3O2"], "2.0D-13*RO2*1.5")],
}
MECHS["wide"] = [MECHS["wide"][-4]] + MECHS["wide"][:60] + [MECHS["wide"][-3]] + MECHS["wide"][60:-4] + MECHS["wide"][-2:]
SMALL = [m for m in MECHS if m != "wide"]
RO2 = {"CH3O2", "C2H5O2", "C96O2"}
DRIVERS = ("numba", "f2py")
STARTS = (0.0, 43200.0, 86350.0, 20000.0)
H2O, TEMP = 3.0e17, 291.0
PRIMES = [2., 3., 5., 7., 11., 13., 17., 19., 23., 29., 31., 37., 41., 43.]


def state(gas, k):
    """pool of solver states: positive, with a zero, with a slightly negative value"""
    n = gas.ns
    v = np.array([PRIMES[(i + 2 * k) % 14] * 1.0e9 * (1 + k % 3) for i in range(n)])
    if k % 4 == 2:
        v[k % n] = 0.0
    if k % 8 == 5:
        v[(k // 2) % n] = 3.0e-4
    if k % 8 == 6:
        v[(k + 1) % n] = 7.0e17
    if k % 4 == 3:
        v[(k // 4) % n] *= -1.0e-3      # solvers step slightly below zero within their tolerance
    return v


def default_script(gas):
    def script(bi, solver, b):
        dt = b["dur"]
        driver.ask(solver, b, "R", b["t0"], b["y0"])
        driver.ask(solver, b, "R", b["t0"] + 0.5 * dt, state(gas, bi + 1))
        if b["jac"] and b["usejac"]:
            driver.ask(solver, b, "J", b["t0"] + 0.5 * dt, state(gas, bi))
        driver.ask(solver, b, "R", b["tf"], state(gas, bi + 2))
        return [b["t0"], b["t0"] + 0.5 * dt, b["tf"]], [b["y0"], state(gas, bi + 7), state(gas, bi + 3)]
    return script


def word_script(gas, words):
    def script(bi, solver, b):
        for kind, frac, st in words[bi % len(words)]:
            y = b["y0"] if st < 0 else state(gas, bi + st)
            if kind == "R" or (b["jac"] and b["usejac"]):
                driver.ask(solver, b, kind, b["t0"] + frac * b["dur"], y)
        if len(words) % 2:
            return [b["t0"], b["tf"]], [b["y0"], state(gas, 3 * bi + 5)]
        return [b["tf"]], [state(gas, 3 * bi + 5)]
    return script


def near_script(gas, scale, step, dt):
    """a solver that hardly moves: calls at nearly the same point in a row, within a batch and across batches"""
    def script(bi, solver, b):
        base = np.maximum(np.abs(b["y0"]), scale)
        for kind in "RJ":
            for at in (0.0, dt):
                for k in (None, 0, len(base) - 1):
                    y = base.copy()
                    if k is not None:
                        y[k] += step if step > 1.0 else step * y[k]
                    if kind == "R" or (b["jac"] and b["usejac"]):
                        driver.ask(solver, b, kind, b["t0"] + at, y)
        driver.ask(solver, b, "R", b["tf"], base)
        driver.ask(solver, b, "R", b["t0"], base)
        return [b["t0"], b["tf"]], [b["y0"], base]
    return script


def judge(ctx, tag, case, which, gas, rec, out, inp, conc, start, sim, batch, nwant, T=TEMP, h2o=H2O, save=None):
    tol = 1e-9 if which == "numba" else 3e-6
    ctx.traces += 1

    def bad(what, msg):
        ctx.violation("%s:%s:%s" % (what, which, tag), msg, case)
        return False
    B = rec.batches
    if len(B) != nwant:
        return bad("batches", "%d batches for %r s in steps of %r s, %d cover it" % (len(B), sim, batch, nwant))
    y = np.zeros(gas.ns)
    for n, v in conc.items():
        y[gas.s2a[n]] = v * driver.CF
    el = 0.0
    ends, times = [], []
    for k, b in enumerate(B):
        if b["y0"].shape != y.shape or not np.allclose(b["y0"], y, rtol=1e-12, atol=0):
            return bad("start", "batch %d starts from %s, should be %s" % (k, b["y0"][:5], y[:5]))
        clip = k == len(B) - 1 and abs(el + b["dur"] - sim) <= 1e-6 * sim
        if abs(b["dur"] - batch) > 1e-9 * max(batch, el) and not clip:
            return bad("length", "batch %d lasts %r s, asked for %r" % (k, b["dur"], batch))
        if not b["jac"] or not b["usejac"]:
            return bad("nojac", "the solver was not given the Jacobian in batch %d" % k)
        for kind, t, yy, v in b["calls"]:
            ctx.transitions += 1
            w, m = gas.reference(kind, yy, T, h2o, start + el + (t - b["t0"]), gas.pool, which)
            v = np.asarray(v)
            if v.size != w.size:
                return bad("shape" + kind, "solver got shape %r for %d species" % (v.shape, gas.ns))
            v = v.reshape(w.shape)
            err = np.abs(v - w) - tol * np.maximum(m, np.abs(w))
            if not np.all(np.isfinite(v)) or np.any(err > 0):
                i = np.unravel_index(int(np.argmax(np.where(np.isfinite(v), err, np.inf))), w.shape)
                return bad("value" + kind, "batch %d, solver time %r (time of day %r): %s%s = %r, mechanism says %r" % (
                    k, t, start + el + t - b["t0"], "d/dt " if kind == "R" else "J", [gas.names[j] for j in i], float(v[i]), float(w[i])))
        el += b["dur"]
        y = b["end"]
        ends.append(y)
        times.append(el)
    if el < sim * (1 - 1e-6):
        return bad("cover", "covers %r of %r s" % (el, sim))
    ends = np.array(ends)
    if which == "numba":
        try:
            t_array, y_matrix = out
        except Exception:
            return bad("return", "returned %r" % (type(out),))
        if np.shape(y_matrix) != ends.shape or not np.array_equal(np.asarray(y_matrix), ends):
            return bad("rows", "y_matrix %r does not hold the end state of each batch %r" % (np.shape(y_matrix), ends.shape))
        if len(t_array) != len(times) or not np.allclose(np.asarray(t_array, dtype=float), times, rtol=1e-9):
            return bad("times", "t_array %s, batches end at %s" % (list(t_array)[:4], times[:4]))
    if save:
        def files():
            a = np.load(save + "_output.npy")
            if a.shape != ends.shape or not np.array_equal(a, ends):
                return bad("saved", "saved matrix %r does not hold the end state of each batch %r" % (a.shape, ends.shape))
            with open(save + "_output_names.csv") as f:
                rows = [r for r in csv.reader(f) if r]
            if {r[0]: int(r[1]) for r in rows} != gas.s2a or len(rows) != gas.ns:
                return bad("names", "names file %s, columns are %s" % (rows[:4], gas.s2a))
            with open(save + "_output_matrix.csv") as f:
                rows = [r for r in csv.reader(f) if r][1:]
            m = np.array([[float(x) for x in r[1:]] for r in rows])
            if m.shape != ends.shape or not np.allclose(m, ends, rtol=1e-12):
                return bad("csv", "csv matrix differs from the end states")
            return True
        try:
            if not files():
                return False
        except Exception:
            return bad("unreadable", "the saved output cannot be read: " + core.short_exc())
    if inp["species_dict2array"] != gas.s2a or inp["species_initial_conc"] != conc:
        return bad("input", "the driver altered its input dictionary")
    return True


def execute(ctx, tag, case, which, gas, script, conc, start, sim, batch, nwant, save=False, T=TEMP, h2o=H2O, order=None):
    ctx.states += 1
    rec = driver.Recorder(script)
    try:
        out, inp = driver.simulate(which, gas, rec, conc, start, sim, batch, T=T, H2O=h2o, save=save, fname=driver.run_name(tag), order=order)
    except driver.Fault as e:
        ctx.violation("fault:%s:%s" % (which, tag), str(e), case)
        return None
    except Exception:
        ctx.violation("raised:%s:%s" % (which, tag), core.short_exc(), case)
        return None
    ok = judge(ctx, tag, case, which, gas, rec, out, inp, conc, start, sim, batch, nwant, T, h2o, save and driver.run_name(tag))
    ctx.outcome((which, len(rec.batches), tag[:6]))
    return rec if ok else None


def build(scratch):
    b = backends.FortranBatch(scratch, tag="drv")
    gases = {k: driver.Gas(v, b) for k, v in MECHS.items()}
    b.build()
    if b.errors:
        raise RuntimeError("generated Fortran does not compile: %s" % list(b.errors.values())[0])
    return gases


def some(gas):
    return {n: 1.5 * (i + 1) for i, n in enumerate(gas.names) if i % 2 == 0}


EVENTS = [(k, f, s) for k in "RJ" for f in (0.0, 0.5, 1.0) for s in (-1, 1)]


def tasks(ctx):
    out = []
    # clock arithmetic: all batch counts of a lattice
    top = 24 if ctx.thorough else 14
    for u in (1.0, 0.1, 60.0, 1.0 / 3.0, 0.7):
        for i, j in itertools.product(range(1, top + 1), range(1, top + 1)):
            for w in DRIVERS:
                out.append(("clock", w, "one", u, i, j))
    for w in DRIVERS:
        for sim, batch in ((10800.0, 100.0), (7200, 100), (3600.0, 7.0), (86400.0, 1800.0), (172800.0, 3600.0), (100.0, 0.1), (12.6, 0.3), (1000, 300)):
            for m in ("full", "dark"):
                out.append(("long", w, m, sim, batch))
    # initial conditions: every subset of the species
    for m in SMALL:
        names = driver_names(m)
        subs = list(itertools.chain.from_iterable(itertools.combinations(names, k) for k in range(len(names) + 1)))
        for s in subs if (len(names) <= 7 or ctx.thorough) else [x for x in subs if len(x) <= 2 or len(x) >= len(names) - 1]:
            for w in DRIVERS:
                out.append(("init", w, m, s))
    # solver scripts
    words = [(e,) for e in EVENTS] + list(itertools.product(EVENTS, repeat=2))
    if ctx.thorough:
        words += list(itertools.product(EVENTS, repeat=3))
    for m in SMALL:
        for w in DRIVERS:
            for wd in words if m in ("full", "ro2first") else words[:12]:
                out.append(("word", w, m, (wd,)))
            for a, b in itertools.product(EVENTS, EVENTS):
                out.append(("word", w, m, ((a,), (b,))))
        for w in DRIVERS:
            for scale in (1.0e-2, 50.0, 1.0e4, 1.0e9):
                for step in (1.0e-4, 2.0e-2, 300.0):
                    for dt in (1.0e-3, 0.4, 25.0):
                        out.append(("near", w, m, scale, step, dt))
    # the whole day: every start hour x batches crossing midnight
    for m in ("full", "one", "ro2first"):
        for w in DRIVERS:
            for h in range(0, 48 if ctx.thorough else 25):
                out.append(("day", w, m, h * 3600.0))
            for T, h2o in itertools.product((265.0, 298.15, 310.0), (0.0, 1.0e15, 8.0e17)):
                out.append(("env", w, m, T, h2o))
    for m in SMALL:
        for w in DRIVERS:
            for sim, batch in ((300.0, 100.0), (250.0, 100.0), (100.0, 100.0)):
                out.append(("save", w, m, sim, batch))
            out.append(("again", w, m))
            # the dictionaries may come in any order (a reloaded pickle, a hand-built table)
            n = len(driver_names(m))
            orders = list(itertools.permutations(range(n))) if n <= (6 if ctx.thorough else 4) else [
                tuple(range(n))[::-1], tuple(range(1, n)) + (0,), tuple(range(n - 1, -1, -2)) + tuple(range(n - 2, -1, -2))]
            for o in orders:
                out.append(("order", w, m, o))
    for w in DRIVERS:
        for m in ("full", "dark"):
            out.append(("rk", w, m))
        for sim, batch in ((250.0, 100.0), (100.0, 100.0), (259200.0, 86400.0)):
            out.append(("save", w, "wide", sim, batch))
        out.append(("again", w, "wide"))
        for s in ("W3",), ("W100", "W5", "CH3O2"), ("C96O2", "W116", "W0", "C2H5O2"), tuple("W%d" % i for i in range(0, 117, 2)):
            out.append(("init", w, "wide", s))
        for o in (tuple(range(120))[::-1], tuple(range(60, 120)) + tuple(range(60))):
            out.append(("order", w, "wide", o))
        for m in ("full", "dark", "ro2first"):
            for sim, batch in ((259200.0, 86400.0), (400000.0, 100000.0), (604800.0, 43200.0), (1.0e6, 1.0e6)):
                out.append(("long", w, m, sim, batch))
        # a solver that integrates, to the accuracy the driver sets
        for m in ("full", "dark", "ro2first", "one"):
            for start, sim, batch in ((43200.0, 3600.0, 300.0), (43200.0, 250.0, 100.0), (20000.0, 7200.0, 3600.0), (86350.0, 900.0, 90.0)):
                for k in (0, 1, 2) if m != "ro2first" or sim < 1000 else (0,):
                    out.append(("solve", w, m, start, sim, batch, k))
    for w in DRIVERS:
        for m in SHIPPED:
            out.append(("ship", w, m))
    # the programs themselves: settings lattice
    for w in DRIVERS:
        for m in ("MCM_APINENE", "MECH_B", "MECH_C", "MECH_D"):
            for sim, batch in ((250.0, 100.0), (100.0, 100.0), (3600.0, 600.0), (0.7, 0.1)):
                out.append(("prog", w, m, dict(sim=sim, batch=batch)))
            for hour in (0.0, 6.5, 12.0, 23.99) if not ctx.thorough else [0.5 * i for i in range(48)]:
                out.append(("prog", w, m, dict(hour=hour)))
            for temp, RH in itertools.product((268.0, 298.15, 310.0), (0.0, 0.5, 0.95)):
                out.append(("prog", w, m, dict(temp=temp, RH=RH)))
            for conc in ((0.0, 30.0), (18, 0), (1.5e3, 2.0e-3)):
                out.append(("prog", w, m, dict(conc=conc)))
    return out


def driver_names(m):
    return [n for n in kpp.species_of(MECHS[m])]


def ceil(i, j):
    return -((-Fraction(i)) // Fraction(j)) if True else 0


def program_run(ctx, item, tag, case):
    """a program of the repository, run as a user would"""
    from checks import progs
    from mc import program
    _, w, m, kw = item
    ctx.states += 1
    with core.workdir(ctx.scratch) as d:
        top = program.tree(d, progs.texts((m,)))
        cache = os.path.join(ctx.scratch, "f2pycache")
        os.makedirs(cache, exist_ok=True)
        v, out, lost = progs.gas_run(top, w, m, cache, **kw)
    ctx.traces += 1
    ctx.transitions += sum(len(b["calls"]) for b in out["batches"])
    ctx.outcome(("prog", w, len(out["batches"]), bool(lost)))
    if v:
        ctx.violation("%s:%s" % (v[0], tag), "program run: " + v[1], case)


SHIPPED = ("MCM_APINENE", "MCM_BCARY")


def ship_cases(w, m, thorough):
    voc = m[4:]
    out = [("save", w, m, 250.0, 100.0), ("again", w, m), ("long", w, m, 259200.0, 86400.0), ("init", w, m, ("O3", "HO2")),
           ("solve", w, m, 43200.0, 900.0, 300.0, ((voc, 3.0), ("O3", 18.0), ("NO2", 2.0))), ("solve", w, m, 17000.0, 600.0, 600.0, ((voc, 20.0), ("OH", 1.0e-4)))]
    out += [("env", w, m, T, h) for T, h in ((265.0, 8.0e17), (310.0, 0.0))]
    out += [("word", w, m, ((a,), (b,))) for a in EVENTS[1:4] for b in EVENTS[7:10]]
    if thorough:
        out += [("word", w, m, ((a,), (b,))) for a in EVENTS for b in EVENTS] + [("day", w, m, h * 3600.0) for h in range(24)]
    return out


def ship(ctx, w, m):
    """a mechanism that comes with the code, through the drivers"""
    from checks import c08
    for net in nets.shipped(m):
        d = os.path.join(ctx.scratch, "ship_%s_%s" % (w, m))
        os.makedirs(d, exist_ok=True)
        b = backends.FortranBatch(d, tag="ship")
        gas = driver.Gas(net, b)
        gas.pool = c08.RO2 & set(gas.names)
        if gas.pool & c08.NEUTRAL:
            ctx.count("shipped_with_undecided_pool")
            return
        if w == "f2py":
            b.build()
            if b.errors:
                raise RuntimeError("generated Fortran does not compile: %s" % list(b.errors.values())[0])
        for it in ship_cases(w, m, ctx.thorough):
            one(ctx, {m: gas}, it)


def one(ctx, gases, item):
    kind, w, m = item[:3]
    if kind == "ship":
        return ship(ctx, w, m)
    if kind == "prog":
        tag = "prog_%s_%s_%s" % (w, m, "_".join("%s%s" % x for x in sorted(item[3].items())))
        return program_run(ctx, item, tag, dict(kind=kind, driver=w, mechanism=m, settings={k: str(x) for k, x in item[3].items()}))
    gas = gases[m]
    tag = "_".join(str(x) for x in item)
    case = dict(kind=kind, driver=w, mechanism=m, item=[str(x) for x in item])
    ds = default_script(gas)
    if kind == "clock":
        u, i, j = item[3:]
        execute(ctx, tag, case, w, gas, ds, some(gas), 43000.0, i * u, j * u, int(ceil(i, j)))
    elif kind == "long":
        sim, batch = item[3:]
        execute(ctx, tag, case, w, gas, ds, some(gas), 30000.0, sim, batch, int(ceil(Fraction(str(sim)), Fraction(str(batch)))))
    elif kind == "init":
        conc = {n: PRIMES[i % 14] * (0.5 + i) for i, n in enumerate(item[3])}
        execute(ctx, tag, case, w, gas, ds, conc, 43200.0, 200.0, 100.0, 2)
        if len(conc) == 1:
            execute(ctx, tag + "_int", case, w, gas, ds, {n: 18 for n in conc}, 43200, 200, 100, 2)
    elif kind == "word":
        for start in STARTS if ctx.thorough else STARTS[1:3]:
            execute(ctx, tag, case, w, gas, word_script(gas, item[3]), some(gas), start, 270.0, 90.0, 3)
    elif kind == "near":
        for start in (43200.0, 24000.0):
            execute(ctx, tag, case, w, gas, near_script(gas, *item[3:]), {}, start, 270.0, 90.0, 3)
    elif kind == "day":
        execute(ctx, tag, case, w, gas, ds, some(gas), item[3], 10800.0, 1800.0, 6)
        execute(ctx, tag + "_d", case, w, gas, ds, some(gas), item[3], 86400.0, 21600.0, 4)
    elif kind == "env":
        execute(ctx, tag, case, w, gas, ds, some(gas), 43200.0, 200.0, 100.0, 2, T=item[3], h2o=item[4])
    elif kind == "save":
        execute(ctx, tag, case, w, gas, ds, some(gas), 43200.0, item[3], item[4], int(ceil(Fraction(item[3]), Fraction(item[4]))), save=True)
    elif kind == "order":
        conc = {gas.names[i]: PRIMES[i % 14] for i in item[3]}
        execute(ctx, tag, case, w, gas, ds, conc, 43200.0, 250.0, 100.0, 3, save=True, order=item[3])
    elif kind == "again":
        a = execute(ctx, tag, case, w, gas, ds, some(gas), 43200.0, 300.0, 100.0, 3)
        b = execute(ctx, tag + "_2", case, w, gas, ds, some(gas), 43200.0, 300.0, 100.0, 3)
        if a and b:
            for x, y in zip(a.batches, b.batches):
                for c, d in zip(x["calls"], y["calls"]):
                    if not np.array_equal(c[3], d[3]):
                        ctx.violation("again:" + tag, "the same simulation repeated gives another tendency", case)
                        return
    elif kind == "solve":
        solve(ctx, gas, w, tag, case, *item[3:])
    elif kind == "rk":
        integrate(ctx, gas, w, tag, case)


def solve(ctx, gas, w, tag, case, start, sim, batch, k):
    """a solver that keeps the tolerances the driver sets: what comes out is the solution of the mechanism"""
    conc = dict(k) if isinstance(k, tuple) else {n: (0.001, 0.02, 0.3)[k] * v for n, v in some(gas).items()}
    y0 = np.zeros(gas.ns)
    for n, v in conc.items():
        y0[gas.s2a[n]] = v * driver.CF
    nb = int(ceil(Fraction(str(sim)), Fraction(str(batch))))
    rec = driver.Recorder(driver.march)
    ctx.states += 1
    try:
        driver.simulate(w, gas, rec, conc, start, sim, batch, T=TEMP, H2O=H2O)
    except driver.Fault as e:
        ctx.violation("fault:%s:%s" % (w, tag), str(e), case)
        return
    except Exception:
        ctx.violation("raised:%s:%s" % (w, tag), core.short_exc(), case)
        return
    ctx.traces += 1
    ctx.transitions += len(rec.batches)
    times, t = [], 0.0
    for b in rec.batches:
        t += b["dur"]
        times.append(start + t)
    if len(times) != nb:
        ctx.violation("batches:%s:%s" % (w, tag), "%d batches, %d cover the run" % (len(times), nb), case)
        return
    ref = driver.true_path(lambda t, y: gas.reference("R", y, TEMP, H2O, t, gas.pool)[0],
                           lambda t, y: gas.reference("J", y, TEMP, H2O, t, gas.pool)[0], y0, start, times)
    for i, (b, want) in enumerate(zip(rec.batches, ref)):
        err = np.abs(b["end"] - want) - 0.01 * np.abs(want) - 1e-8 * np.max(np.abs(want)) - 1.0
        if not np.all(np.isfinite(b["end"])) or np.any(err > 0):
            j = int(np.argmax(np.where(np.isfinite(b["end"]), err, np.inf)))
            ctx.violation("solution:%s:%s" % (w, tag), "after batch %d %s is %r, the mechanism's solution is %r" % (i, gas.names[j], float(b["end"][j]), float(want[j])), case)
            return


def integrate(ctx, gas, w, tag, case):
    """a real (fixed step RK4) solver: any partition of the run into batches gives the same trajectory"""
    dt = 10.0

    def script(bi, solver, b):
        n = max(1, int(round(b["dur"] / dt)))
        h = b["dur"] / n
        y, t = b["y0"].copy(), b["t0"]

        def f(t, y):
            v = np.array(solver.problem.rhs(t, y.copy()), dtype=float).reshape(-1)
            return v
        ts, ys = [t], [y.copy()]
        for _ in range(n):
            k1 = f(t, y)
            k2 = f(t + h / 2, y + h / 2 * k1)
            k3 = f(t + h / 2, y + h / 2 * k2)
            k4 = f(t + h, y + h * k3)
            y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            t += h
            ts.append(t)
            ys.append(y.copy())
        return ts, ys
    conc = {n: 1.0e-5 * v for n, v in some(gas).items()}      # not stiff
    res = {}
    for batch in (7200.0, 3600.0, 1800.0, 720.0, 100.0):
        rec = driver.Recorder(script)
        ctx.states += 1
        ctx.traces += 1
        try:
            driver.simulate(w, gas, rec, conc, 18000.0, 7200.0, batch, T=TEMP, H2O=1.0e9)
        except Exception:
            ctx.violation("raised:" + tag, core.short_exc(), case)
            return
        t = 0.0
        for b in rec.batches:
            ctx.transitions += 1
            t += b["dur"]
            key = int(round(t))
            if not np.all(np.isfinite(b["end"])):
                raise RuntimeError("reference integrator diverged")
            if key in res and not np.allclose(res[key], b["end"], rtol=1e-7, atol=1e-3):
                ctx.violation("partition:" + tag, "after %d s the state depends on the batch length (%r): %s vs %s" % (
                    key, batch, b["end"][:4], res[key][:4]), case)
                return
            res.setdefault(key, b["end"])


def work(ctx, items):
    from mc import program
    program.warm()
    with core.workdir(ctx.scratch):
        gases = build(ctx.scratch)
        for it in items:
            one(ctx, gases, it)


def run(ctx):
    ts = tasks(ctx)
    ctx.sample(dict(tasks=len(ts), first=[str(t) for t in ts[:3]]))
    core.parallel(ctx, work, ts)
