"""C03: generic MCM coefficients and photolysis rates of every generated evaluator, over all of a lattice.

Explored: every generic coefficient x temperature x water lattice, and every photolysis channel at every time
step of three days (night, twilight, noon, day boundaries and the seconds around each sign change of the solar
elevation), in the Python, Numba (plain and jitted) and Fortran (serial and OpenMP) evaluators.
"""
import numpy as np

from mc import backends, core, mcm
from checks import rates

TEMPS = [200.0, 230.0, 250.0, 273.15, 288.15, 298.0, 298.15, 300.0, 310.0, 325.0, 350.0]
WATER = [0.0, 1.0e15, 1.1e17, 4.3e17, 9.7e17]
TOLK = {"python": 1e-9, "numba": 1e-9, "fortran": 3e-5}
TOLJ = {"python": 1e-7, "numba": 1e-7, "fortran": 2e-4}
ASSUMPTIONS = ["parameter values were transcribed into mc/mcm.py (no network to fetch the published tables)",
               "the plain Python evaluator keeps its own fixed declination and latitude"]

COEF = [n for n in mcm.NAMES]
PHOT = ["J(%d)" % c for c in mcm.CHANNELS]
EXPRS = COEF + PHOT


def times(thorough):
    step = 60.0 if thorough else 300.0
    out = list(np.arange(0.0, 3 * 86400.0, step))
    out += [86399.0, 86400.0, 86401.0, 172800.0, 43199.5, 43200.5, 10 * 86400.0 + 43200.0, 30 * 86400.0 + 1.0]
    out += [d * 86400.0 + h * 5400.0 for d in (5, 6, 7, 31, 100, 365, 366, 1000) for h in range(16)]
    for f in (mcm.cosx_atchem, mcm.cosx_derwent):
        for t in range(0, 86400, 60):
            if (f(t) > 0) != (f(t + 60) > 0):
                out += [float(t + d) for d in range(-60, 121, 6 if thorough else 30)]
    return sorted(set(x for x in out if x >= 0))


def unit(ctx, openmp):
    u = rates.Unit(EXPRS)
    b = backends.FortranBatch(ctx.scratch, tag="k%d" % openmp, flags=["-O0"] + (["-fopenmp"] if openmp else []))
    u.generate(b, openmp=openmp)
    b.build()
    return u


def coefficients(ctx, run, name, b):
    points = [(T, H, 7.0e9, 43200.0) for T in TEMPS for H in WATER]
    points += [(T, H, R, t) for T in TEMPS[::3] for H in WATER[::2] for R in (0.0, 1.0, 5.0e11) for t in (0.0, 20000.0, 43200.0, 61200.0, 86399.0, 200000.0, 9.0e6)]
    points += [(T, WATER[1], 7.0e9, 43200.0) for T in range(160, 400, 4)]
    for T, H, R, t in points:
        with np.errstate(all='ignore'):
            ctx.states += 1
            want = mcm.coefficients(T, H)
            got = run(T, R, H, t)
            for i, n in enumerate(COEF):
                ctx.transitions += 1
                ctx.traces += 1
                if not abs(got[i] - want[n]) <= TOLK[b] * abs(want[n]):
                    ctx.violation("%s:%s" % (name, n), "%s = %r in the %s evaluator, MCM gives %r at T=%g H2O=%g RO2=%g t=%g" % (n, float(got[i]), name, want[n], T, H, R, t),
                                  dict(coefficient=n, backend=name, T=T, H2O=H, RO2=R, t=t))
                if name == "numba":
                    ctx.outcome((n, "%.4e" % want[n]))


def photolysis(ctx, run, name, b, ts):
    f = mcm.cosx_derwent if b == "python" else mcm.cosx_atchem
    day = {}
    points = [(t, 298.15, 7.0e9, 4.3e17) for t in ts]
    points += [(t, T, R, H) for t in ts[::29] for T, R, H in ((200.0, 0.0, 0.0), (350.0, 5.0e11, 2.0e18), (273.15, 1.0, 1.0e15))]
    for t, T, R, H in points:
        ctx.states += 1
        got = run(T, R, H, t)[len(COEF):]
        cosx = f(t)
        want = mcm.photolysis(cosx)
        # near the horizon the rates are tiny and infinitely steep: judge them against the noon scale there
        eps = 3e-6 if b == "fortran" else 1e-9
        lo, hi = mcm.photolysis(cosx - eps), mcm.photolysis(cosx + eps)
        for i, c in enumerate(mcm.CHANNELS):
            ctx.transitions += 1
            ctx.traces += 1
            g, w = got[i], want[c]
            if not (np.isfinite(g) and g >= 0.0):
                ctx.violation("%s:J%d:sign" % (name, c), "J(%d) = %r at t=%g s (%s), must be finite and non-negative" % (c, float(g), t, name),
                              dict(channel=c, backend=name, t=t))
                continue
            if cosx <= -1e-5 and g > 1e-30:
                ctx.violation("%s:J%d:night" % (name, c), "J(%d) = %r at t=%g s (%s) with the sun below the horizon" % (c, float(g), t, name),
                              dict(channel=c, backend=name, t=t))
            if not (lo[c] - TOLJ[b] * lo[c] - 1e-30 <= g <= hi[c] + TOLJ[b] * hi[c] + 1e-30):
                ctx.violation("%s:J%d" % (name, c), "J(%d) = %r at t=%g s in the %s evaluator, parameterisation gives %r" % (c, float(g), t, name, w),
                              dict(channel=c, backend=name, t=t))
            k = (round(t % 86400.0, 6), c)
            if k in day:
                h = day[k]
                if abs(g - h) > 1e-9 * max(g, h) + (hi[c] - lo[c]) + 1e-30:
                    ctx.violation("%s:J%d:period" % (name, c), "J(%d) differs between days at the same time of day: %r and %r (t=%g)" % (c, float(h), float(g), t),
                                  dict(channel=c, backend=name, t=t))
            else:
                day[k] = g
                if name == "numba":
                    ctx.outcome((c, "%.4e" % g))


def run(ctx):
    ts = times(ctx.thorough)
    ctx.extra["time_points"] = len(ts)
    ctx.sample(dict(time=ts[5], temps=TEMPS))

    def work(ctx, items):
        for item in items:
            with core.workdir(ctx.scratch):
                openmp = item == "fortran-omp"
                u = unit(ctx, openmp)
                b = item.split("-")[0]
                if item == "numba-jit":
                    f = backends.import_numba("Rate_coefficients_numba.py", "jit")["evaluate_rates"]

                    def r(T, R, H, t):
                        return f(t, R, H, T, np.zeros(u.n), np.zeros(63))
                else:
                    def r(T, R, H, t):
                        return u.run(b, T, R, H, t)
                m = u.err.get(b) or (b == "fortran" and u.fb.errors.get(u.nm))
                if m:
                    ctx.violation(item + ":build", m, dict(backend=item))
                    continue
                try:
                    coefficients(ctx, r, item, b)
                    photolysis(ctx, r, item, b, ts)
                except core.Stop:
                    raise
                except Exception:
                    ctx.violation(item + ":raised", core.short_exc(), dict(backend=item))
    core.parallel(ctx, work, ["python", "numba", "numba-jit", "fortran", "fortran-omp"])
