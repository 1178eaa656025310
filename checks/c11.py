"""C11: the emitted partitioning kernel is the condensation law, bin by bin, and moves matter without making any.

Every (number of species, included subset, number of bins) up to a bound is emitted by the real generator, compiled,
and called on every point of a concentration lattice x property sets x parameters; all histories of two calls are
replayed.  Oracle: mc/partition.reference, written from the condensation equation.
"""
import itertools

import numpy as np

from mc import backends, core, partition

TOL = 2e-6


def lattice(n, levels, cap):
    """all assignments of levels to n entries when there are at most cap, else all with at most two entries changed"""
    if len(levels) ** n <= cap:
        for t in itertools.product(levels, repeat=n):
            yield t
        return
    for base in levels:
        yield (base,) * n
        for i in range(n):
            for a in levels:
                if a != base:
                    yield tuple(a if k == i else base for k in range(n))
    base = levels[1]
    for i, j in itertools.combinations(range(n), 2):
        for a, b in itertools.product(levels, repeat=2):
            if a != base and b != base:
                yield tuple(a if k == i else b if k == j else base for k in range(n))


def wide(cfg):
    """few states, every compound distinguishable: for layouts too large for the lattice"""
    n, g = cfg.nc * cfg.bins, cfg.ns
    for salt, (T, alpha, sigma, cd) in itertools.product((0, 1), ((298.15, 1.0, 72.0e-3, 2.6), (265.0, 0.1, 30.0e-3, 1.0))):
        props = partition.properties(cfg, salt, T, alpha, sigma, cd)
        for k in range(6):
            gas = np.array([1.0e9 * (1 + (7 * i + k) % 101) for i in range(g)])
            gas[-1] = 3.0e17
            cond = np.array([1.0e8 * (1 + (13 * i + k) % 97) for i in range(n)])
            if k == 4:
                gas[::3] *= -1.0e-3
            if k == 5:
                cond[::3] = 0.0
            yield (salt, (T, alpha, sigma, cd)), partition.full(cfg, props, gas, cond)


def extreme(cfg):
    """compounds and particles far from the usual ones: every corner of the property ranges"""
    for fp, fn, a, fc, sg, T in itertools.product((1.0e-14, 1.0e4), (1.0e-3, 1.0e3), (1.0e-4, 1.0), (1.0e-4, 1.0e4), (0.0, 0.072), (180.0, 340.0)):
        p = partition.properties(cfg, 1, T, a, sg, 0.35 if fp < 1 else 5.6)
        p["psat"] = p["psat"] * fp
        p["psat"][-1] = 0.031
        p["n_perbin"] = p["n_perbin"] * fn
        for k in ("ycore", "core_mass_array"):
            p[k] = p[k] * fc
        p["gamma_gas"] = p["gamma_gas"] * (3.0 if a < 1 else 0.2)
        gas = np.array([2.0e7 * (k + 1) for k in range(cfg.ns)])
        gas[-1] = 8.0e17 if T > 200 else 1.0e14
        cond = np.array([3.0e6 * (k + 2) for k in range(cfg.nc * cfg.bins)])
        cond[cfg.nc - 1::cfg.nc] *= 1.0e3
        for z in (1.0, 1.0e6):
            yield ("extreme", fp, fn, a, fc, sg, T, z), partition.full(cfg, p, gas, cond * z)


def cases(cfg, thorough):
    if cfg.nc * cfg.bins > 60:
        for x in wide(cfg):
            yield x
        return
    for x in extreme(cfg):
        yield x
    lv = (0.0, 1.0e7, 3.0e11) if not thorough else (0.0, 1.0e5, 1.0e9, 3.0e12)
    cap = 4096 if thorough else 300
    for params in itertools.product((0, 1), ((298.15, 1.0, 72.0e-3, 3.0), (265.0, 0.1, 30.0e-3, 1.0), (310.0, 0.7, 60.0e-3, 2.37))):
        salt, (T, alpha, sigma, cd) = params
        props = partition.properties(cfg, salt, T, alpha, sigma, cd)
        gas = np.array([5.0e9 * (k + 1) for k in range(cfg.ns)])
        gas[-1] = 3.0e17
        for c in lattice(cfg.nc * cfg.bins, lv, cap):
            cond = np.array(c) * (1.0 + 0.07 * np.arange(len(c)))
            yield params, partition.full(cfg, props, gas, cond)
        cond = np.array([1.0e9 * (k + 2) for k in range(cfg.nc * cfg.bins)])
        for g in lattice(cfg.ns, lv, cap):
            yield params, partition.full(cfg, props, np.array(g) * (1.0 + 0.11 * np.arange(len(g))), cond)
        # a solver steps slightly below zero within its tolerance: every single entry, and all gas entries, negative
        for i in range(len(cond)):
            for f in (-1.0e-3, -0.4):
                c = cond.copy()
                c[i] *= f
                yield params, partition.full(cfg, props, gas, c)
        for i in range(cfg.ns):
            for f in (-1.0e-3, -1.0):
                g = gas.copy()
                g[i] *= f
                yield params, partition.full(cfg, props, g, cond)


def judge(ctx, cfg, v, got, case):
    want = partition.reference(cfg, v)
    ctx.states += 1
    ctx.transitions += cfg.bins

    def bad(what, msg):
        ctx.violation("%s:%r" % (what, cfg), msg, case)
        return False
    for k in ("size_array", "aw_array"):
        if not np.all(np.abs(got[k] - want[k]) <= TOL * np.abs(want[k])):
            return bad(k, "%s = %s, from the composition %s" % (k, got[k], want[k]))
    if not abs(got["total_soa_mass"] - want["total_soa_mass"]) <= TOL * abs(want["total_soa_mass"]):
        return bad("soa", "SOA mass %r, from the composition %r" % (got["total_soa_mass"], want["total_soa_mass"]))
    d, w, m = got["dy_dt"], want["dy_dt"], want["mag"]
    if not np.all(np.abs(d - w) <= TOL * m):
        i = int(np.argmax(np.where(np.isfinite(d), np.abs(d - w) - TOL * m, np.inf)))
        return bad("law", "dy/dt[%d] = %r, condensation law gives %r" % (i, float(d[i]), float(w[i])))
    for k in range(cfg.ns):
        if k not in cfg.include:
            if d[k] != 0.0:
                return bad("excluded", "excluded compound %d changes by %r" % (k, float(d[k])))
            continue
        i = cfg.include.index(k)
        parts = d[cfg.ns + i::cfg.nc]
        if not abs(d[k] + parts.sum()) <= 1e-12 * (np.abs(parts).sum() + 1e-300) * cfg.bins:
            return bad("mass", "compound %d: gas %r, particles %r" % (k, float(d[k]), float(parts.sum())))
    return True


def work(ctx, cfgs):
    with core.workdir(ctx.scratch):
        fb = backends.FortranBatch(ctx.scratch, ("-O2", "-fopenmp"), tag="p")
        kn = []
        for cfg in cfgs:
            try:
                src = cfg.emit()
                kn.append((cfg, fb.add("Partitioning.f90"), partition.argnames(src)))
            except Exception:
                ctx.violation("gen:%r" % cfg, core.short_exc(), dict(config=repr(cfg)))
        fb.build()
        for cfg, nm, order in kn:
            if nm in fb.errors:
                ctx.violation("compile:%r" % cfg, fb.errors[nm], dict(config=repr(cfg)))
                continue
            first = []
            ok = True
            for params, v in cases(cfg, ctx.thorough):
                case = dict(config=repr(cfg), params=params, y=v["y"].tolist())
                got = partition.call(fb, nm, cfg, v, order)
                ctx.traces += 1
                ok = judge(ctx, cfg, v, got, case)
                if not ok:
                    break
                if len(first) < 5 and (ctx.states % 37) < 6:
                    first.append((v, got))
            ctx.outcome((repr(cfg), got["dy_dt"].tobytes()))
            if ok:      # every history of two calls: the kernel remembers nothing
                for (a, ga), (b, gb) in itertools.product(first, repeat=2):
                    partition.call(fb, nm, cfg, a, order)
                    g = partition.call(fb, nm, cfg, b, order)
                    ctx.transitions += 2
                    if not (np.allclose(g["dy_dt"], gb["dy_dt"], rtol=1e-12, atol=0) and np.allclose(g["aw_array"], gb["aw_array"], rtol=1e-12)
                            and abs(g["total_soa_mass"] - gb["total_soa_mass"]) <= 1e-12 * abs(gb["total_soa_mass"])):
                        ctx.violation("history:%r" % cfg, "the same call gives another result after a different call", dict(config=repr(cfg)))
                        break


def run(ctx):
    cfgs = partition.configs(5 if ctx.thorough else 4, 4 if ctx.thorough else 3)
    cfgs += [partition.Config(4, (0, 2, 3), b) for b in (8, 16)] + [partition.Config(9, (1, 4, 5, 7, 8), 5), partition.Config(12, tuple(range(12)), 2)]
    cfgs += [partition.Config(40, tuple(range(1, 40, 2)), 7), partition.Config(130, tuple(range(130)), 3), partition.Config(3, (0, 2), 64),
             partition.Config(260, tuple(range(3, 259, 3)) + (259,), 9), partition.Config(1150, tuple(range(0, 1150, 2)) + (1149,), 2),
             partition.Config(70, tuple(range(70)), 40)]
    cfgs += partition.every(5 if ctx.thorough else 4, 4 if ctx.thorough else 3)
    cfgs += [partition.Every(4, (1,), 16), partition.Every(12, (0, 3, 7), 5), partition.Every(130, range(0, 129, 4), 3), partition.Every(3, (0,), 64), partition.Every(700, range(1, 699, 5), 2)]
    ctx.sample(dict(configurations=[repr(c) for c in cfgs[:6]], total=len(cfgs)))
    core.parallel(ctx, work, cfgs, nchunks=16)
