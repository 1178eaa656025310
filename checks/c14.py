"""C14: the initial size distribution is the requested lognormal.

Every point of bins x total x median x geometric standard deviation x size range (and every history of two calls) is
put through the real function; the oracle is the lognormal density in closed form, evaluated in log space.
"""
import itertools
import math

import numpy as np

from mc import core, env


def reference(n, total, median, gsd, lo, hi):
    x = [lo * (hi / lo) ** (i / (n - 1.0)) for i in range(n)] if n > 1 else [lo]
    s = math.log(gsd)
    lw = [-math.log(v) - 0.5 * ((math.log(v) - math.log(median)) / s) ** 2 for v in x]
    m = max(lw)
    w = [math.exp(v - m) for v in lw]
    t = sum(w)
    return np.array(x), np.array(w) / t * total, min(lw), m


def judge(ctx, got, args):
    n, total, median, gsd, lo, hi = args
    tag = "_".join("%g" % a for a in args)
    case = dict(zip(("bins", "total", "median", "gsd", "lower", "upper"), args))
    ctx.states += 1
    ctx.traces += 1
    N, x = (np.asarray(a, dtype=float) for a in got)
    wx, wN, low, high = reference(*args)

    def bad(what, msg):
        ctx.violation("%s:%s" % (what, tag), msg, case)
        return False
    if N.shape != (n,) or x.shape != (n,):
        return bad("count", "asked for %d bins, got %r sizes and %r numbers" % (n, x.shape, N.shape))
    if not np.allclose(x, wx, rtol=1e-9, atol=0):
        return bad("grid", "sizes %s, geometric grid %s" % (x[:5], wx[:5]))
    if n > 1 and not np.all(np.diff(x) > 0):
        return bad("monotone", "sizes do not increase: %s" % x[:6])
    if not abs(N.sum() - total) <= 1e-9 * total:
        return bad("total", "numbers add up to %r, requested %r" % (float(N.sum()), total))
    if low > -650 and not np.all(N > 0):
        return bad("positive", "bin number %r" % float(N.min()))
    if not np.all(np.abs(N - wN) <= 1e-8 * np.abs(wN) + 1e-280 * total):
        i = int(np.argmax(np.abs(N - wN)))
        return bad("density", "bin %d (%g um): %r, lognormal share %r" % (i, wx[i], float(N[i]), float(wN[i])))
    ctx.outcome((n, round(float(N[0]), 12), round(float(N[-1]), 12)))
    return True


def lattice(ctx):
    th = ctx.thorough
    few = [1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 32, 50, 64, 100]
    bins = few if not th else list(range(1, 129)) + [200, 256, 400, 401, 500]
    tot = [1, 100, 100.0, 0.5, 1234.5, 1.0e6] if not th else [1e-3, 0.5, 1, 3, 10, 100, 100.0, 999.0, 1234.5, 1.0e6, 3.3e9]
    med = [0.005, 0.05, 0.2, 0.6, 1, 2.5] if not th else [0.002, 0.005, 0.02, 0.05, 0.1, 0.2, 0.35, 0.6, 0.9, 1, 1.1, 2.5, 8.0]
    gsd = [1.2, 1.5, 2.0, 2, 2.2, 3.0, 5.5] if not th else [1.15, 1.2, 1.3, 1.5, 1.75, 2.0, 2, 2.2, 2.5, 3.0, 4.0, 5.5]
    rng = [(0.01, 1.0), (0.001, 10.0), (0.05, 0.5), (0.2, 0.4), (1, 10), (0.01, 0.0101)]
    grid = list(itertools.product(bins, tot, med, gsd, rng))
    # every number of bins; totals, spreads and units (nm, um, m) far apart
    grid += itertools.product(list(range(1, 131)) + [199, 200, 255, 256, 257, 399, 400, 401, 500, 512, 1000], [100.0, 7], [0.2, 0.06], [2.2, 1.3], [(0.01, 1.0), (0.02, 3)])
    grid += itertools.product(few, [1e-9, 1e-3, 3, 1e9, 1e12, 1e20], [0.2, 0.6], [2.2, 1.5], rng)
    grid += itertools.product(few, [100, 2.5e3], [0.1, 0.25, 0.3], [1.01, 1.02, 1.05, 1.08, 1.1, 8.0, 10, 30.0, 1000.0], rng + [(0.24, 0.26), (0.09, 0.11), (0.29, 0.31)])
    for u in (1e-9, 1e-6, 1e-3, 1.0e3):
        grid += [(n, t, 0.2 * u, s, lo * u, hi * u) for n, t, s, (lo, hi) in itertools.product(few, [100, 0.5], [2.2, 1.5, 3], rng)]
    for n, t, m, s, (lo, hi) in ((g[:4] + (g[4],)) if len(g) == 5 else (g[:4] + (g[4:],)) for g in dict.fromkeys(grid)):
        _, _, low, high = reference(n, t, m, s, lo, hi)
        if high > -600 and low > -690:      # densities a double can hold
            yield (n, t, m, s, lo, hi)


def work(ctx, items):
    f = env.module("Aerosol/Size_distributions.py").lognormal
    for a in items:
        ctx.transitions += a[0]
        try:
            with core.quiet():
                got = f(*a)
        except Exception:
            ctx.violation("raised:" + "_".join("%g" % v for v in a), core.short_exc(), dict(args=a))
            continue
        judge(ctx, got, a)


def run(ctx):
    f = env.module("Aerosol/Size_distributions.py").lognormal
    ls = list(lattice(ctx))
    ctx.sample(dict(points=len(ls), first=ls[:3]))
    core.parallel(ctx, work, ls)
    # histories: every ordered pair of a small set of calls, keyword and positional
    small = [(4, 100, 0.2, 2.2, 0.01, 1.0), (1, 5.0, 0.1, 1.5, 0.05, 0.5), (16, 1000.0, 0.3, 1.7, 0.01, 1.0), (3, 1.0, 1.0, 3.0, 0.1, 10.0)]
    for a, b in itertools.product(small, repeat=2):
        with core.quiet():
            f(*a)
            N, x = f(*b)
            N[0] += 0.0
            got = f(num_bins=b[0], total_conc=b[1], meansize=b[2], std=b[3], lowersize=b[4], uppersize=b[5])
        ctx.transitions += 3
        judge(ctx, (N, x), b)
        judge(ctx, got, b)
        for g in ((N, x), got):         # results belong to the caller: changing them changes no later result
            for v in g:
                v[:] = -1.0
        N, x = f(*b)
        judge(ctx, (N, x), b)
        k = f(b[0], b[1] * 7.0, *b[2:])
        if not np.allclose(np.asarray(k[0]), 7.0 * np.asarray(N), rtol=1e-9):
            ctx.violation("scale:" + str(b), "seven times the total does not give seven times each bin", dict(args=b))
