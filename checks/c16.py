"""C16: figures show the simulated numbers.

(a) The composition plot (both Plotting modules): every layout of compounds x bins up to the bound, every assignment of
    amounts from a small alphabet (zero and slightly negative included) to (bin, compound), and every history of output
    steps up to a depth, drawn by the real function with the real matplotlib; the finished figure is read back.
(b) The drivers' own figures: every included-compound subset x bin count x run length x solver script of small
    mechanisms through the real drivers; the figure must hold the output the driver returned or saved.
"""
import itertools
import math

import numpy as np

from checks import c09, c13
from mc import aerosol, backends, core, driver, env, figures, kpp

NA = 6.0221409e23
FILES = {"root": "Plotting.py", "yield": "Aerosol/f2py/Fixed_yield/Plotting.py"}
MW = (168.23, 92.1, 231.7, 136.24, 44.05, 301.3, 76.2, 119.9)


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def expected(row, nc, bins, mw, off):
    """mass of each compound but water in each bin [ug/m3]; slightly negative amounts are nothing"""
    m = np.zeros((bins, nc - 1))
    for b in range(bins):
        for i in range(nc - 1):
            m[b, i] = max(0.0, row[off + b * nc + i] / NA * mw[i] * 1.0e12)
    return m


def judge_stack(fig, m):
    """None, or what is wrong with one stacked bar figure"""
    bins, n = m.shape
    total = m.sum()
    t = figures.last_number(fig["title"])
    if t is None or abs(t - total) > 0.0051 + 1e-9 * total:
        return "title", "title %r, the state has %r ug/m3" % (fig["title"], total)
    xs = sorted({round(x) for x, _, h, _ in fig["bars"] if h > 0})
    full = [b for b in range(bins) if m[b].sum() > 0]
    if n and (len(xs) != len(full) or [x - full[0] for x in xs] != [b - full[0] + (xs[0] - full[0]) for b in full]):
        return "bins", "bars at %s, bins with material %s" % (xs, full)
    first = xs[0] - full[0] if xs else 0
    colours = {}
    for b in full:
        bars = sorted([q for q in fig["bars"] if round(q[0]) - first == b and q[2] > 0], key=lambda q: q[1])
        share = m[b] / m[b].sum()
        lvl = 0.0
        for _, lo, h, _ in bars:
            if not close(lo, lvl, 1e-7):
                return "stack", "bin %d: a bar starts at %r, those below reach %r" % (b, lo, lvl)
            lvl += h
        if not close(lvl, 1.0, 1e-7):
            return "sum", "bin %d: shares add up to %r" % (b, lvl)
        got = {}
        for _, _, h, c in bars:
            got.setdefault(c, []).append(h)
        for c, h in got.items():
            if len(h) != 1:
                return "colour", "bin %d: %d bars of one colour" % (b, len(h))
            colours.setdefault(c, {})[b] = h[0]
    # every colour is one compound, in every bin
    left = [i for i in range(n) if any(m[b, i] > 0 for b in full)]
    for c, hs in colours.items():
        fit = [i for i in left if all(abs(hs.get(b, 0.0) - m[b, i] / m[b].sum()) <= 1e-7 for b in full)]
        if not fit:
            return "share", "bars of one colour %s are no compound's shares %s" % (
                {b: round(h, 6) for b, h in hs.items()}, [[round(float(m[b, i] / m[b].sum()), 6) for b in full] for i in left])
        left.remove(fit[0])
    if left:
        return "missing", "compounds %s are not drawn" % left
    return None


# ---- (a) the plotting function ----
AMOUNT = (0.0, 2.0e9, 7.0e9, -3.0e5)


def rows(nc, bins, alphabet, salt):
    n = (nc - 1) * bins
    for k, w in enumerate(itertools.product(alphabet, repeat=n)):
        y = np.zeros(nc * (bins + 1))
        y[:nc] = [1.0e10 * (i + 3) for i in range(nc)]
        for j, v in enumerate(w):
            b, i = divmod(j, nc - 1) if nc > 1 else (0, 0)
            y[nc + b * nc + i] = v * (1 + 0.01 * i + 0.1 * b if v > 0 else 1)
        for b in range(bins):
            y[nc + b * nc + nc - 1] = 4.0e11 * (1 + b)
        yield y


def cases_a(ctx):
    th = ctx.thorough
    out = []
    A, B3, B2 = AMOUNT, AMOUNT[:3], AMOUNT[1:3]
    for nc, bins, al in ((1, 1, A), (1, 3, A), (2, 1, A), (2, 2, A), (2, 3, B3), (3, 1, A), (3, 2, A if th else B3), (4, 1, A if th else B3), (3, 3, B3 if th else B2),
                         (4, 2, B3 if th else B2), (5, 1, B3 if th else B2)):
        r = list(rows(nc, bins, al, 0))
        step = 6
        for i in range(0, len(r), step):
            out.append((nc, bins, r[i:i + step]))
    W = (3.0e6, 4.0e8, 1.0e12)      # minor constituents beside a major one
    for nc, bins in ((3, 1), (3, 2), (4, 1)):
        r = list(rows(nc, bins, W, 0))
        for i in range(0, len(r), 6):
            out.append((nc, bins, r[i:i + 6]))
    for nc, bins in ((2, 4), (3, 2), (4, 1)):       # the same, with masses the title resolves
        r = list(rows(nc, bins, (1.6e10, 2.0e13, 4.0e15), 0))
        for i in range(0, len(r), 6):
            out.append((nc, bins, r[i:i + 6]))
    for nc, bins in ((2, 3), (3, 2), (4, 1)):       # traces: the start of a simulation
        for al in ((2.0e-3, 7.0, 3.0e4), (0.0, 4.0e5, 9.0e7)):
            r = list(rows(nc, bins, al, 0))
            for i in range(0, len(r), 6):
                out.append((nc, bins, r[i:i + 6]))
    # histories: every ordered pair (triple) of states, each also drawn after the other
    for nc, bins in ((2, 2), (3, 1), (3, 2)):
        r = [x for x in rows(nc, bins, B3, 0)]
        r = r[1:: max(1, len(r) // (8 if th else 5))][: 8 if th else 5]
        for k in (1, 2, 3):
            for s in itertools.product(r, repeat=k):
                if k < 3 or th or (nc, bins) == (3, 1):
                    out.append((nc, bins, list(s)))
    # sizes a real run has
    for nc, bins in ((6, 16), (12, 5), (30, 3), (9, 1)):
        y = np.array([1.0e9 * (1 + (7 * i) % 11) for i in range(nc * (bins + 1))])
        out.append((nc, bins, [y, y[::-1].copy()]))
    y = np.array([1.0e9 * (1 + (7 * i) % 11) for i in range(4 * 3)])
    out.append((4, 2, [y * (1 + 0.3 * k) for k in range(13)]))      # more steps than digits, hours or colours
    out.append((3, 1, [np.array([1.0e9 * (1 + (7 * i + k) % 11) for i in range(3 * 2)]) for k in range(60)]))
    out.append((2, 64, [np.array([1.0e9 * (1 + (5 * i) % 7) for i in range(2 * 65)])]))
    return out


def draw(ctx, mods, i, case):
    nc, bins, ys = case
    mw = np.array([MW[k % len(MW)] + 13.0 * (k // len(MW)) for k in range(nc - 1)] + [18.0])
    t = [100.0 * (k + 1) for k in range(len(ys))]
    Y = np.array(ys)
    for nm, m in mods.items():
        ctx.states += 1
        tag = "%s_%d_%d_%d_%d" % (nm, nc, bins, len(ys), i)
        info = dict(module=FILES[nm], compounds_with_water=nc, bins=bins, states=[list(map(float, y)) for y in ys][:3])
        keep = Y.copy()
        try:
            with core.quiet(), figures.capture() as shown:
                m.stacked_bar(t, Y, nc, bins, mw, NA)
        except Exception:
            ctx.violation("raised:" + tag, core.short_exc(), info)
            continue
        ctx.transitions += len(shown)
        ctx.traces += 1
        if not np.array_equal(keep, Y):
            ctx.violation("altered:" + tag, "drawing changed the output matrix", info)
            continue
        if len(shown) != len(ys):
            ctx.violation("figures:" + tag, "%d figures for %d output steps" % (len(shown), len(ys)), info)
            continue
        for k, y in enumerate(ys):
            v = judge_stack(shown[k], expected(y, nc, bins, mw, nc))
            if v:
                ctx.violation("%s:%s" % (v[0], tag), "step %d: %s" % (k, v[1]), info)
                break
        ctx.outcome((nm, nc, bins, len(shown), len(shown[0]["bars"])))


# ---- (b) the drivers ----
R = kpp.Rxn
GAS = {"first": [R(["APINENE", "O3"], ["PINONIC", "XO"], "1.0D-16"), R(["PINONIC", "XO"], ["0.3O3"], "3.0D-14")],
       "last": [R(["ZO", "XO"], ["PINONIC"], "1.0D-16"), R(["PINONIC"], ["0.5APINENE", "ZO"], "2.0D-4")]}


def layouts(thorough):
    out = {}
    for n in (1, 2, 3, 4) if thorough else (1, 2, 3):
        for s in c13.subsets(n, 16):
            for b in (1, 2, 3):
                out["fixed:%d:%s:%d" % (n, "".join(map(str, s)), b)] = ("fixed", n, s, b)
    for s in c13.subsets(3, 16):
        for b in (1, 2):
            out["coupled:dark:%s:%d" % ("".join(map(str, s)), b)] = ("coupled", "dark", s, b)
    return out


def tasks_b(ctx):
    out = []
    for k in layouts(ctx.thorough):
        for sim, batch in ((100.0, 100.0), (250.0, 100.0), (600.0, 120.0)):
            out.append(("aero", k, sim, batch))
    for g in GAS:
        for n in range(1, 7):
            for batch in (50.0, 100.0, 0.5, 1800.0):
                out.append(("gas", g, n * batch, batch))
                out.append(("numba", g, n * batch, batch))
    return out


def line_matches(fig, label, x, y):
    for lb, lx, ly in fig["lines"]:
        if label is None or lb == label:
            if len(lx) == len(x) and np.allclose(lx, x, rtol=1e-9) and np.allclose(ly, y, rtol=1e-7, atol=1e-12):
                return True
    return False


def one_b(ctx, lay, gases, item):
    kind, key, sim, batch = item
    tag = "_".join(str(x) for x in item)
    case = dict(item=[str(x) for x in item])
    ctx.states += 1
    n = int(c09.ceil(sim, batch))
    try:
        if kind in ("gas", "numba"):
            g = gases[key]
            rec = driver.Recorder(gas_script(g))
            rec.drawing = True
            with figures.capture() as shown:
                # the Numba driver draws once its switch is on
                driver.simulate("f2py" if kind == "gas" else "numba", g, rec, {x: 10.0 + i for i, x in enumerate(g.names)}, 43200.0, sim, batch, plots=kind == "numba")
            # what the solver returned is what was simulated (C09 compares the returned and saved output with it)
            y = np.array([b["end"] for b in rec.batches])
            t = np.cumsum([b["dur"] for b in rec.batches])
        else:
            a = lay[key]
            rec = driver.Recorder(positive_script(a))
            rec.drawing = True
            kd = key.split(":")[0]
            conc = gas0 = None
            if kd == "coupled":
                conc = dict(c09.some(a.gas), H2O=2.0e17)
            else:
                gas0 = [float(abs(x)) for x in c13.state(a, 0)[:a.cfg.ns]]
            shows = {}
            for plot in (True, False) if kd == "coupled" else (True,):
                rec = driver.Recorder(positive_script(a))
                rec.drawing = True
                with figures.capture() as shown:
                    aerosol.simulate(kd, a, rec, 43200.0, sim, batch, conc=conc, cond=c13.cond0(a), gas0=gas0, T=c13.TEMP, RH=c13.RH,
                                     H2O=c13.H2O, save=True, plot=plot)
                shows[plot] = shown
            t = np.asarray(aerosol.load("m", "_t_output.pickle"), dtype=float)
            y = np.asarray(aerosol.load("m", "_y_output.pickle"), dtype=float)
            soa = np.asarray(aerosol.load("m", "_SOA_output.pickle"), dtype=float).reshape(-1)
            shown = shows[True]
    except driver.NoSwitch:
        ctx.count("driver_without_a_switch_for_its_figure")
        return
    except Exception:
        ctx.violation("raised:" + tag, core.short_exc(), case)
        return
    ctx.traces += 1
    ctx.transitions += len(shown)
    ctx.outcome((kind, key, len(shown)))
    if kind != "aero":
        if not shown:
            return ctx.violation("none:" + tag, "no figure is shown", case)
        for nm in ("APINENE", "PINONIC"):
            if not any(line_matches(f, nm, t, np.log10(y[:, g.s2a[nm]])) for f in shown):
                return ctx.violation("curve:" + tag, "no curve %s holds log10 of its concentrations %s at %s; drawn: %s" % (
                    nm, np.log10(y[:3, g.s2a[nm]]), t[:3], [(q[0], q[1][:3], q[2][:3]) for f in shown for q in f["lines"]]), case)
        for f in shown:
            for lb, lx, ly in f["lines"]:
                if lb in g.s2a and not line_matches(dict(lines=[(lb, lx, ly)]), lb, t, np.log10(y[:, g.s2a[lb]])):
                    return ctx.violation("label:" + tag, "the curve %s is not that species" % lb, case)
        return
    cfg = a.cfg
    if kd == "coupled":
        if shows[False]:
            return ctx.violation("unasked:" + tag, "a figure is shown although none was asked for", case)
        if not any(line_matches(f, None, t, soa) for f in shown):
            return ctx.violation("mass:" + tag, "SOA mass %s at %s, drawn: %s" % (soa[:3], t[:3], [(q[1][:3], q[2][:3]) for f in shown for q in f["lines"]]), case)
        return
    if len(shown) != n:
        return ctx.violation("figures:" + tag, "%d figures for %d output steps" % (len(shown), n), case)
    for k in range(n):
        v = judge_stack(shown[k], expected(y[k], cfg.nc, cfg.bins, a.p["mw_array"], cfg.ns))
        if v:
            return ctx.violation("%s:%s" % (v[0], tag), "output step %d: %s" % (k, v[1]), case)


def gas_script(g):
    def state(k):
        return np.array([c09.PRIMES[(i + 3 * k) % 14] * 10.0 ** ((9, -4, 13, 3)[k % 4]) * (1 + k % 3) for i in range(g.ns)])

    def script(bi, solver, b):
        driver.ask(solver, b, "R", b["t0"], b["y0"])
        return [b["t0"], b["tf"]], [b["y0"], state(bi)]
    return script


def positive_script(a):
    def script(bi, solver, b):
        driver.ask(solver, b, "R", b["t0"], b["y0"])
        return [b["t0"], b["tf"]], [b["y0"], np.abs(c13.state(a, bi + 1))]
    return script


def work(ctx, items):
    mods = {}
    for nm, f in FILES.items():
        try:
            mods[nm] = env.module(f, fresh=True)
        except Exception:
            ctx.violation("import:" + nm, core.short_exc(), dict(module=f))
    lay, gases = {}, {}
    with core.workdir(ctx.scratch):
        keys = {it[2][1] for it in items if it[0] == "b" and it[2][0] == "aero"}
        gk = {it[2][1] for it in items if it[0] == "b" and it[2][0] in ("gas", "numba")}
        spec = layouts(ctx.thorough)
        b = backends.FortranBatch(ctx.scratch, tag="fig")
        for k in sorted(gk):
            gases[k] = driver.Gas(GAS[k], b)
        dark = None
        for i, k in enumerate(sorted(keys)):
            kind, m, s, bins = spec[k]
            if kind == "coupled" and dark is None:
                dark = driver.Gas(c09.MECHS["dark"], b)
            lay[k] = aerosol.Aero(dark if kind == "coupled" else None, m if kind == "fixed" else 0, s, bins, b, salt=i % 3)
        if keys or gk:
            b.build()
            if b.errors:
                raise RuntimeError("generated Fortran does not compile: %s" % list(b.errors.values())[0])
        for what, i, it in items:
            if what == "a":
                draw(ctx, mods, i, it)
            else:
                one_b(ctx, lay, gases, it)


def run(ctx):
    ca, cb = cases_a(ctx), tasks_b(ctx)
    ctx.sample(dict(drawings=len(ca), driver_runs=len(cb), first=[(c[0], c[1], len(c[2])) for c in ca[:3]]))
    core.parallel(ctx, work, [("b", i, c) for i, c in enumerate(cb)] + [("a", i, c) for i, c in enumerate(ca)])
