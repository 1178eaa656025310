"""C13: the coupled and fixed-yield aerosol drivers hand the solver gas chemistry plus partitioning at the solver's own
state and the true time of day, chain their batches and save aligned output - whatever the solver does.

As C09: every script of a controlled solver up to a bound, every (run, batch) lattice point, every included-compound
subset and bin count of small mechanisms, run through the real drivers on the code the real generators emit.
Oracle: mc/kpp.py + mc/mcm.py (gas chemistry) + mc/partition.reference (condensation law).
"""
import csv
import itertools
import os
from fractions import Fraction

import numpy as np

from checks import c08, c09
from mc import aerosol, backends, core, driver, kpp, nets, partition

KINDS = ("coupled", "fixed")
PRIMES = c09.PRIMES
TEMP, RH, H2O = 288.15, 0.5, 2.0e17


def subsets(n, cap):
    s = list(itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(n + 1)))
    if len(s) <= cap:
        return s
    return [x for x in s if len(x) <= 1 or len(x) >= n - 1] + [tuple(range(0, n, 2)), tuple(range(1, n, 2)), tuple(range(n // 2))]


_ship = {}


def ship(m):
    """(reactions, species) of a shipped mechanism; empty where it is not there any more"""
    if m not in _ship:
        nets_ = nets.shipped(m)
        _ship[m] = (nets_[0], kpp.species_of(nets_[0])) if nets_ else None
    return _ship[m]


def layouts(thorough):
    out = {}
    bins = (1, 2, 3, 4) if thorough else (1, 2, 3)
    for m in ("dark", "ro2first", "one"):
        n = len(kpp.species_of(c09.MECHS[m]))
        for s in subsets(n, 64 if thorough else 16):
            for b in bins if m != "ro2first" or thorough else (1, 2):
                out["coupled:%s:%s:%d" % (m, "".join(map(str, s)), b)] = ("coupled", m, s, b)
    n = len(kpp.species_of(c09.MECHS["full"]))
    for s in subsets(n, 16):
        out["coupled:full:%s:2" % "".join(map(str, s))] = ("coupled", "full", s, 2)
    for n in (1, 2, 3, 4) if thorough else (1, 2, 3):
        for s in subsets(n, 16):
            for b in bins:
                out["fixed:%d:%s:%d" % (n, "".join(map(str, s)), b)] = ("fixed", n, s, b)
    # as many compounds and bins as real runs have
    out["fixed:30:even:8"] = ("fixed", 30, tuple(range(0, 30, 2)), 8)
    out["fixed:11:all:16"] = ("fixed", 11, tuple(range(11)), 16)
    out["coupled:wide:some:4"] = ("coupled", "wide", tuple(range(1, 119, 3)), 4)
    # a mechanism that comes with the code
    n = len(ship("MCM_APINENE")[1]) if ship("MCM_APINENE") else 0
    out["coupled:MCM_APINENE:third:8"] = ("coupled", "MCM_APINENE", tuple(range(2, n, 3)), 8)
    out["coupled:MCM_APINENE:last:3"] = ("coupled", "MCM_APINENE", (0, n // 2, n - 1), 3)
    if thorough:
        out["coupled:MCM_APINENE:all:16"] = ("coupled", "MCM_APINENE", tuple(range(n)), 16)
    if not n:
        out = {k: v for k, v in out.items() if v[1] != "MCM_APINENE"}
    out["coupled:full:0269:16"] = ("coupled", "full", (0, 2, 6), 16)
    return out


MAIN = ("coupled:full:02468:2", "coupled:dark:012:2", "coupled:ro2first:02:1", "fixed:3:012:2", "fixed:2:1:3")


def state(a, k):
    """pool of solver states"""
    cfg = a.cfg
    v = np.array([PRIMES[(i + 3 * k) % 14] * (1.0e9 if i < cfg.ns else 4.0e7) * (1 + k % 3) for i in range(cfg.length)])
    v[cfg.ns - 1] = 1.0e17 * (1 + 0.3 * (k % 5))
    for b in range(cfg.bins):
        v[cfg.ns + (b + 1) * cfg.nc - 1] = 3.0e9 * (1 + (k + b) % 4)
    if k % 4 == 2:
        v[k % cfg.length] = 0.0
    if k % 8 == 5:
        v[(k // 2) % cfg.length] = 4.0e-4
    if k % 8 == 6:
        v[(k + 1) % max(1, cfg.ns - 1)] = 6.0e15
    if k % 4 == 3 and cfg.length > 1:
        # solvers step slightly below zero within their tolerance: one gas and one (non-core) condensed amount
        v[k % max(1, cfg.ns - 1)] *= -1.0e-3
        if cfg.nc > 1:
            v[cfg.ns + (k % cfg.bins) * cfg.nc + k % (cfg.nc - 1)] *= -1.0e-3
    return v


def default_script(a):
    def script(bi, solver, b):
        dt = b["dur"]
        driver.ask(solver, b, "R", b["t0"], b["y0"])
        driver.ask(solver, b, "R", b["t0"] + 0.5 * dt, state(a, bi + 1))
        driver.ask(solver, b, "R", b["tf"], state(a, bi + 2))
        return [b["t0"], b["t0"] + 0.5 * dt, b["tf"]], [b["y0"], state(a, bi + 7), state(a, bi + 3)]
    return script


def word_script(a, words):
    def script(bi, solver, b):
        for frac, st in words[bi % len(words)]:
            driver.ask(solver, b, "R", b["t0"] + frac * b["dur"], b["y0"] if st < 0 else state(a, bi + st))
        if len(words) % 2:
            return [b["t0"], b["tf"]], [b["y0"], state(a, 3 * bi + 5)]
        return [b["tf"]], [state(a, 3 * bi + 5)]
    return script


def near_script(a, scale, step, dt):
    """a solver that hardly moves: calls at nearly the same point in a row, within a batch and across batches"""
    cfg = a.cfg
    spots = (None, 0, cfg.ns - 1, cfg.ns, cfg.length - 1)

    def moved(y, k):
        y = y.copy()
        if k is not None:
            y[k] += step if step > 1.0 else step * y[k]
        return y

    def script(bi, solver, b):
        base = np.maximum(np.abs(b["y0"]), scale)
        for at in (0.0, dt):
            for k in spots:
                driver.ask(solver, b, "R", b["t0"] + at, moved(base, k))
        driver.ask(solver, b, "R", b["tf"], base)
        driver.ask(solver, b, "R", b["t0"], base)
        return [b["t0"], b["tf"]], [b["y0"], moved(base, spots[(bi + 3) % 5])]
    return script


def cond0(a, k=0):
    cfg = a.cfg
    c = np.array([1.0e7 * PRIMES[(i + k) % 14] for i in range(cfg.nc * cfg.bins)])
    c[cfg.nc - 1::cfg.nc] *= 100.0
    return c


def judge(ctx, tag, case, kind, a, rec, inp, before, y0, start, sim, batch, nwant, T, h2o, save):
    cfg = a.cfg
    ctx.traces += 1

    def bad(what, msg):
        ctx.violation("%s:%s:%s" % (what, kind, tag), msg, case)
        return False
    B = rec.batches
    if len(B) != nwant:
        return bad("batches", "%d batches for %r s in steps of %r s, %d cover it" % (len(B), sim, batch, nwant))
    y, el = np.asarray(y0, dtype=float), 0.0
    ends, times, soa, size = [], [], [], []
    for k, b in enumerate(B):
        if b["y0"].shape != y.shape or not np.allclose(b["y0"], y, rtol=1e-12, atol=0):
            i = int(np.argmax(np.abs(b["y0"] - y) > 1e-12 * np.abs(y))) if b["y0"].shape == y.shape else -1
            return bad("start", "batch %d starts with y[%d]=%r of %r, should be %r of %r" % (k, i, b["y0"][i], b["y0"].shape, y[i], y.shape))
        clip = k == len(B) - 1 and abs(el + b["dur"] - sim) <= 1e-6 * sim
        if abs(b["dur"] - batch) > 1e-9 * max(batch, el) and not clip:
            return bad("length", "batch %d lasts %r s, asked for %r" % (k, b["dur"], batch))
        for _, t, yy, v in b["calls"]:
            ctx.transitions += 1
            r = a.reference(yy, T, h2o, start + el + (t - b["t0"]), a.pool)
            w, m = r["dy_dt"], r["mag"]
            v = np.asarray(v)
            if v.size != w.size:
                return bad("shape", "solver got shape %r for %d states" % (v.shape, w.size))
            v = v.reshape(-1)
            err = np.abs(v - w) - 5e-6 * np.maximum(m, np.abs(w))
            if not np.all(np.isfinite(v)) or np.any(err > 0):
                i = int(np.argmax(np.where(np.isfinite(v), err, np.inf)))
                return bad("value", "batch %d, solver time %r (time of day %r): dy[%d]/dt = %r, chemistry plus condensation is %r" % (
                    k, t, start + el + t - b["t0"], i, float(v[i]), float(w[i])))
        el += b["dur"]
        y = b["end"]
        r = a.reference(y, T, h2o, start + el, a.pool)
        ends.append(y)
        times.append(el)
        soa.append(r["total_soa_mass"])
        size.append(r["size_array"])
    if el < sim * (1 - 1e-6):
        return bad("cover", "covers %r of %r s" % (el, sim))
    if save:
        def files():
            E, S, Z = np.array(ends), np.array(soa), np.array(size)
            got = np.asarray(aerosol.load(save, "_y_output.pickle"))
            if got.shape != E.shape or not np.array_equal(got, E):
                return bad("saved", "saved matrix %r does not hold the end state of each batch %r" % (got.shape, E.shape))
            t = np.asarray(aerosol.load(save, "_t_output.pickle"), dtype=float)
            if t.shape != (len(times),) or not np.allclose(t, times, rtol=1e-9):
                return bad("times", "saved times %s, batches end at %s" % (t[:4], times[:4]))
            s = np.asarray(aerosol.load(save, "_SOA_output.pickle"), dtype=float)
            if s.size != len(S) or not np.allclose(s.reshape(-1), S, rtol=5e-6, atol=0):
                return bad("soa", "saved SOA %s, the saved composition has %s" % (s.reshape(-1)[:3], S[:3]))
            z = np.asarray(aerosol.load(save, "_size_output.pickle"), dtype=float)
            if z.shape != Z.shape or not np.allclose(z, Z, rtol=5e-6, atol=0):
                return bad("size", "saved sizes %s, the saved composition has %s" % (z[:1], Z[:1]))
            inc = [int(x) for x in aerosol.load(save, "include_index.pickle")]
            if inc != list(cfg.include):
                return bad("include", "saved include_index %s, compounds are %s" % (inc, cfg.include))
            if kind == "fixed":
                with open(save + "_y_output.csv") as f:
                    m = np.array([[float(x) for x in r[1:]] for r in csv.reader(f) if r][1:])
                if m.shape != E.shape or not np.allclose(m, E, rtol=1e-12):
                    return bad("csv", "csv matrix differs from the end states")
                for what, w in (("_t_output", np.array(times)), ("_SOA_output", S), ("_size_output", Z)):
                    with open(save + what + ".csv") as f:
                        m = np.array([[float(x) for x in r[1:]] for r in csv.reader(f) if r][1:])
                    if m.size != w.size or not np.allclose(m.reshape(-1), w.reshape(-1), rtol=5e-6, atol=0):
                        return bad("csv" + what, "%s.csv %s, should be %s" % (what, m.reshape(-1)[:3], w.reshape(-1)[:3]))
            return True
        try:
            if not files():
                return False
        except Exception:
            return bad("unreadable", "the saved output cannot be read: " + core.short_exc())
    for k in before:
        x, w = inp[k], before[k]
        if k == "sat_vp":       # the driver refreshes the water entry
            x, w = x[:-1], w[:-1]
        same = x == w if isinstance(w, (dict, str)) else np.array_equal(np.asarray(x), np.asarray(w))
        if not same:
            return bad("input", "the driver altered its input %s" % k)
    return True


def execute(ctx, tag, case, kind, a, script, start, sim, batch, nwant, conc=None, k0=0, T=TEMP, h2o=H2O):
    ctx.states += 1
    cfg = a.cfg
    cond = cond0(a, k0)
    gas0 = None
    if kind == "coupled":
        conc = c09.some(a.gas) if conc is None else conc
        if not any(n == "H2O" for n in conc):
            conc = dict(conc)
            conc["H2O" if k0 % 2 == 0 else "".join(["H2", "O"])] = h2o
        y0 = np.zeros(cfg.ns)
        for n, v in conc.items():
            if n == "H2O":
                y0[cfg.ns - 1] = v
            else:
                y0[a.gas.s2a[n]] = v * driver.CF
    else:
        gas0 = [float(x) for x in state(a, k0)[:cfg.ns]]
        y0 = np.array(gas0)
    y0 = np.concatenate([y0, cond])
    rec = driver.Recorder(script)
    before = aerosol_copy(a.input_dict(conc or {}, cond, gas0))
    try:
        out, inp = aerosol.simulate(kind, a, rec, start, sim, batch, conc=conc, cond=cond, gas0=gas0, T=T, RH=RH, H2O=h2o, save=True, fname=driver.run_name(tag))
    except driver.Fault as e:
        ctx.violation("fault:%s:%s" % (kind, tag), str(e), case)
        return None
    except Exception:
        ctx.violation("raised:%s:%s" % (kind, tag), core.short_exc(), case)
        return None
    ok = judge(ctx, tag, case, kind, a, rec, inp, before, y0, start, sim, batch, nwant, T, h2o, driver.run_name(tag))
    ctx.outcome((kind, len(rec.batches), cfg.nc, cfg.bins))
    return rec if ok else None


def aerosol_copy(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, np.ndarray):
            out[k] = v.copy()
        elif isinstance(v, dict):
            out[k] = dict(v)
        elif isinstance(v, list):
            out[k] = list(v)
        else:
            out[k] = v
    return out


def solve(ctx, a, kind, tag, case, start, sim, batch, k):
    """a solver that keeps the tolerances the driver sets: what comes out is the solution of chemistry plus partitioning"""
    cfg = a.cfg
    cond = cond0(a, k)
    conc, gas0 = None, None
    if kind == "coupled":
        conc = {n: (0.001, 0.02)[k % 2] * v for n, v in c09.some(a.gas).items()}
        y0 = np.zeros(cfg.ns)
        for n, v in conc.items():
            y0[a.gas.s2a[n]] = v * driver.CF
        conc["H2O"] = y0[-1] = H2O
    else:
        gas0 = [float(x) for x in state(a, k)[:cfg.ns]]
        y0 = np.array(gas0)
    y0 = np.concatenate([y0, cond])
    rec = driver.Recorder(driver.march)
    ctx.states += 1
    try:
        aerosol.simulate(kind, a, rec, start, sim, batch, conc=conc, cond=cond, gas0=gas0, T=TEMP, RH=RH, H2O=H2O)
    except driver.Fault as e:
        ctx.violation("fault:%s:%s" % (kind, tag), str(e), case)
        return
    except Exception:
        ctx.violation("raised:%s:%s" % (kind, tag), core.short_exc(), case)
        return
    ctx.traces += 1
    ctx.transitions += len(rec.batches)
    times, t = [], 0.0
    for b in rec.batches:
        t += b["dur"]
        times.append(start + t)
    if len(times) != int(c09.ceil(Fraction(str(sim)), Fraction(str(batch)))):
        ctx.violation("batches:%s:%s" % (kind, tag), "%d batches for %r s in steps of %r s" % (len(times), sim, batch), case)
        return
    ref = driver.true_path(lambda t, y: a.reference(y, TEMP, H2O, t, a.pool)["dy_dt"], None, y0, start, times, 1e-6, 1.0)
    for i, (b, want) in enumerate(zip(rec.batches, ref)):
        err = np.abs(b["end"] - want) - 0.02 * np.abs(want) - 1e-6 * np.sum(np.abs(np.delete(want, cfg.ns - 1))) - 1.0
        if not np.all(np.isfinite(b["end"])) or np.any(err > 0):
            j = int(np.argmax(np.where(np.isfinite(b["end"]), err, np.inf)))
            ctx.violation("solution:%s:%s" % (kind, tag), "after batch %d y[%d] is %r, the solution is %r" % (i, j, float(b["end"][j]), float(want[j])), case)
            return


EVENTS = [(f, s) for f in (0.0, 0.25, 1.0) for s in (-1, 1, 2)]


def tasks(ctx):
    out = []
    lay = layouts(ctx.thorough)
    for k in lay:
        out.append(("layout", k))
    main = [m for m in MAIN if m in lay]
    top = 16 if ctx.thorough else 9
    for m in (main[1], main[3]):
        for u in (1.0, 0.1, 60.0, 1.0 / 3.0, 0.7):
            for i, j in itertools.product(range(1, top + 1), range(1, top + 1)):
                out.append(("clock", m, u, i, j))
        for sim, batch in ((3600.0, 300.0), (3600.0, 100.0), (7200, 100), (3600.0, 7.0), (86400.0, 1800.0), (12.6, 0.3), (1000, 300), (259200.0, 86400.0), (400000.0, 100000.0)):
            out.append(("long", m, sim, batch))
    words = [(e,) for e in EVENTS] + list(itertools.product(EVENTS, repeat=2))
    if ctx.thorough:
        words += list(itertools.product(EVENTS, repeat=3))
    for m in main:
        for w in words:
            out.append(("word", m, (w,)))
        for x, y in itertools.product(EVENTS, EVENTS):
            out.append(("word", m, ((x,), (y,))))
        for near in itertools.product((1.0e-2, 50.0, 1.0e4, 1.0e9), (1.0e-4, 2.0e-2, 300.0), (1.0e-3, 0.4, 25.0)):
            out.append(("near", m) + near)
        for h in range(0, 48 if ctx.thorough else 25):
            out.append(("day", m, h * 3600.0))
        for T, h2o in itertools.product((268.0, 288.15, 305.0), (1.0e15, 8.0e17)):
            out.append(("env", m, T, h2o))
        out.append(("again", m))
        for start, sim, batch in ((43200.0, 250.0, 100.0), (86350.0, 300.0, 60.0)):
            for k in (0, 1):
                out.append(("solve", m, start, sim, batch, k))
    for m in main[:3]:
        names = kpp.species_of(c09.MECHS[lay[m][1]])
        subs = list(itertools.chain.from_iterable(itertools.combinations(names, k) for k in range(len(names) + 1)))
        for s in subs if (len(names) <= 7 or ctx.thorough) else [x for x in subs if len(x) <= 2 or len(x) >= len(names) - 1]:
            out.append(("init", m, s))
    # the programs themselves: settings lattice
    for m in ("MCM_APINENE", "MECH_B", "MECH_D"):
        for bins in (1, 2, 3, 8):
            out.append(("prog", "coupled", m, dict(bins=bins)))
        for sim, batch in ((100.0, 100.0), (3600.0, 600.0), (0.7, 0.1)):
            out.append(("prog", "coupled", m, dict(sim=sim, batch=batch)))
        for hour in (0.0, 6.5, 23.99) if not ctx.thorough else [0.5 * i for i in range(48)]:
            out.append(("prog", "coupled", m, dict(hour=hour)))
        for temp, RH in itertools.product((268.0, 288.15, 310.0), (0.1, 0.5, 0.95)):
            out.append(("prog", "coupled", m, dict(temp=temp, RH=RH)))
        for conc in ((0.0, 30.0), (18, 0), (1.5e3, 2.0e-3)):
            out.append(("prog", "coupled", m, dict(conc=conc)))
        for total, std, mean in itertools.product((10.0, 5000.0), (1.3, 2.5), (0.05, 0.4)):
            out.append(("prog", "coupled", m, dict(total_conc=total, std=std, meansize=mean, bins=4)))
    for m in ("MCM_yield", "YIELD_B"):
        for bins in (1, 2, 3, 8):
            out.append(("prog", "fixed", m, dict(bins=bins)))
        for sim, batch in ((100.0, 100.0), (3600.0, 600.0), (0.7, 0.1)):
            out.append(("prog", "fixed", m, dict(sim=sim, batch=batch)))
        for temp, RH in itertools.product((268.0, 288.15, 310.0), (0.1, 0.5, 0.95)):
            out.append(("prog", "fixed", m, dict(temp=temp, RH=RH)))
        for voc in (1.0, 300.0):
            out.append(("prog", "fixed", m, dict(voc=voc)))
        for lo, hi in ((0.005, 0.5), (0.02, 3.0)):
            out.append(("prog", "fixed", m, dict(lowersize=lo, uppersize=hi, bins=5)))
    return out


def program_run(ctx, item, structures=None):
    """an aerosol program of the repository, run as a user would"""
    from checks import progs
    from mc import program
    _, w, m, kw = item
    st = progs.SMILES if structures is None else structures
    tag = "prog_%s_%s_%s" % (w, m, "_".join("%s%s" % x for x in sorted(kw.items())))
    if structures is not None:
        tag += "_" + "+".join(sorted(n for n in st if st[n]))
    case = dict(program=w, mechanism=m, settings={k: str(x) for k, x in kw.items()}, structures=st)
    ctx.states += 1
    with core.workdir(ctx.scratch) as d:
        top = program.tree(d, progs.texts((m,)), progs.xml(st), progs.yields())
        cache = os.path.join(ctx.scratch, "f2pycache")
        os.makedirs(cache, exist_ok=True)
        if w == "coupled":
            v, out, lost = progs.coupled_run(top, m, cache, st, **kw)
        else:
            v, out, lost = progs.fixed_run(top, m, cache, **kw)
    ctx.traces += 1
    ctx.transitions += sum(len(b["calls"]) for b in out["batches"])
    ctx.outcome(("prog", w, len(out["batches"]), bool(lost), len(out["batches"][0]["y0"]) if out["batches"] else 0))
    if v:
        ctx.violation("%s:%s" % (v[0], tag), "program run: " + v[1], case)


def one(ctx, lay, item):
    kind, key = item[:2]
    if kind == "prog":
        return program_run(ctx, item)
    a = lay[key]
    kd = key.split(":")[0]
    tag = "_".join(str(x) for x in item)
    case = dict(kind=kind, layout=key, item=[str(x) for x in item])
    ds = default_script(a)
    if kind == "layout":
        execute(ctx, tag, case, kd, a, ds, 43200.0, 250.0, 100.0, 3)
        execute(ctx, tag + "_b", case, kd, a, ds, 40000.0, 100.0, 100.0, 1, k0=3)
    elif kind == "clock":
        u, i, j = item[2:]
        execute(ctx, tag, case, kd, a, ds, 43000.0, i * u, j * u, int(c09.ceil(i, j)))
    elif kind == "long":
        sim, batch = item[2:]
        execute(ctx, tag, case, kd, a, ds, 30000.0, sim, batch, int(c09.ceil(Fraction(str(sim)), Fraction(str(batch)))))
    elif kind == "word":
        for start in c09.STARTS if ctx.thorough else c09.STARTS[1:3]:
            execute(ctx, tag, case, kd, a, word_script(a, item[2]), start, 270.0, 90.0, 3)
    elif kind == "near":
        for start in (43200.0, 24000.0):
            execute(ctx, tag, case, kd, a, near_script(a, *item[2:]), start, 270.0, 90.0, 3)
    elif kind == "day":
        execute(ctx, tag, case, kd, a, ds, item[2], 10800.0, 1800.0, 6)
    elif kind == "env":
        execute(ctx, tag, case, kd, a, ds, 43200.0, 200.0, 100.0, 2, T=item[2], h2o=item[3])
    elif kind == "init":
        conc = {n: PRIMES[i % 14] * (0.5 + i) for i, n in enumerate(item[2])}
        execute(ctx, tag, case, kd, a, ds, 43200.0, 200.0, 100.0, 2, conc=conc)
        execute(ctx, tag + "_w", case, kd, a, ds, 43200.0, 200.0, 100.0, 2, conc=conc, k0=1)
    elif kind == "solve":
        solve(ctx, a, kd, tag, case, *item[2:])
    elif kind == "again":
        x = execute(ctx, tag, case, kd, a, ds, 43200.0, 300.0, 100.0, 3)
        y = execute(ctx, tag + "_2", case, kd, a, ds, 43200.0, 300.0, 100.0, 3)
        if x and y:
            for p, q in zip(x.batches, y.batches):
                for c, d in zip(p["calls"], q["calls"]):
                    if not np.array_equal(c[3], d[3]):
                        ctx.violation("again:" + tag, "the same simulation repeated gives another tendency", case)
                        return


def build(ctx, keys):
    spec = layouts(ctx.thorough)
    b = backends.FortranBatch(ctx.scratch, tag="aer")
    out, gases = {}, {}
    for i, k in enumerate(sorted(keys)):
        kind, m, s, bins = spec[k]
        if kind == "coupled" and m not in gases:
            gases[m] = driver.Gas(c09.MECHS[m] if m in c09.MECHS else ship(m)[0], b)
            if m not in c09.MECHS:
                gases[m].pool = c08.RO2 & set(gases[m].names)
        out[k] = aerosol.Aero(gases[m] if kind == "coupled" else None, m if kind == "fixed" else 0, s, bins, b, salt=i % 3)
    b.build()
    if b.errors:
        raise RuntimeError("generated Fortran does not compile: %s" % list(b.errors.values())[0])
    return out


def work(ctx, items):
    from mc import program
    program.warm()
    with core.workdir(ctx.scratch):
        lay = build(ctx, {it[1] for it in items if it[0] != "prog"})
        for it in items:
            one(ctx, lay, it)


def run(ctx):
    ts = tasks(ctx)
    ts.sort(key=lambda t: (t[0] != "layout",))
    ctx.sample(dict(tasks=len(ts), layouts=len(layouts(ctx.thorough)), first=[str(t) for t in ts[:3]]))
    core.parallel(ctx, work, ts)
