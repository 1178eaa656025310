"""C05: each species' tendency is the sum over reactions of (produced - consumed) x reaction rate, in the
numba code, the Fortran code and the exported sparse matrix; held-constant species have none; every linear
invariant of the mechanism is conserved."""
import math

import numpy as np

from mc import backends, core, env, kpp, nets
from checks import gen


def rates(n, salt=0):
    base = [7.0, 11.0, 13.0, 17.0, 19.0, 23.0, 29.0, 31.0, 37.0, 41.0]
    return [base[(i + 3 * salt) % 10] * (1 + (i // 10)) + 64.0 * salt for i in range(n)]


def extremes(n):
    """zero, negative (from slightly negative concentrations), all zero, magnitudes over 40 decades, each reaction alone"""
    base = rates(n, 2)
    out = [[-x if i % 2 else x for i, x in enumerate(base)], [0.0 if i % 2 else x for i, x in enumerate(base)], [0.0] * n,
           [math.ldexp(x, (i * 37) % 130 - 66) for i, x in enumerate(base)], [-1.0e-9 * x for x in base]]
    for i in range(n) if n <= 6 else (0, n // 2, n - 1):
        out.append([x if i == j else 0.0 for j, x in enumerate(base)])
    return out


def judge(ctx, kind, tag, case, got, u, net, r, tol):
    want, mag = kpp.tendency(net, r, list(u["s2a"]))
    for n, i in u["s2a"].items():
        if not backends.close(got[i], want[n], tol, mag[n]):
            ctx.violation("%s:%s:%s" % (kind, n, tag), "d[%s]/dt = %r, mechanism says %r at rates %r" % (n, float(got[i]), want[n], r[:6]), case)
            return False
    return True


def one(ctx, sh, net):
    P = env.parse_mod()
    tag = gen.fingerprint(net)
    case = dict(network=tag)
    ctx.states += 1
    ctx.transitions += len(net)
    try:
        u = gen.prepare(net)
        with core.quiet():
            P.write_loss_gain_matrix("m", u["neq"], u["ns"], u["loss"], u["gain"], u["s2a"])
    except Exception:
        ctx.violation("gen:" + tag, core.short_exc(), case)
        return
    rs = [rates(u["neq"], s) for s in (0, 1)] + extremes(u["neq"])
    ctx.outcome(sorted(kpp.tendency(net, rs[0], list(u["s2a"]))[0].items()))
    try:
        f = gen.load(net, "Loss_Gain_numba.py")["dydt"]
        for r in rs:
            if not judge(ctx, "numba", tag, case, f(np.zeros(u["ns"]), np.array(r)), u, net, r, 1e-10):
                break
        ctx.traces += 1
    except Exception:
        ctx.violation("numba-run:" + tag, core.short_exc(), case)
    try:
        S = backends.load_sparse("loss_gain_m.npz")
        if S.shape != (u["ns"], u["neq"]):
            ctx.violation("sparse-shape:" + tag, "matrix shape %r for %d species, %d reactions" % (S.shape, u["ns"], u["neq"]), case)
        else:
            judge(ctx, "sparse", tag, case, S @ np.array(rs[0]), u, net, rs[0], 1e-10)
        ctx.traces += 1
    except Exception:
        ctx.violation("sparse-run:" + tag, core.short_exc(), case)
    try:
        od2 = gen.prepare(net)      # the Fortran path of the programs starts from a fresh parse too
        with core.quiet():
            P.write_loss_gain_fortran("m", od2["neq"], od2["ns"], od2["loss"], od2["gain"], od2["s2a"], False)
    except Exception:
        ctx.violation("fgen:" + tag, core.short_exc(), case)
        return

    def then(call, u=u):
        for r in rs:
            out = np.full(u["ns"], np.nan)
            call(np.array(r), out)
            if not judge(ctx, "fortran", tag, case, out, u, net, r, gen.TOLF):
                break
        ctx.traces += 1
    sh.add_fortran("Loss_Gain.f90", then, tag)


def work(ctx, items):
    with core.workdir(ctx.scratch):
        sh = gen.Shard(ctx)
        for net in items:
            one(ctx, sh, net)
        sh.flush()


def run(ctx):
    ns = gen.networks(ctx)
    ctx.sample(dict(network=nets.key(ns[7])))
    ctx.extra["bound"] = "all networks of depth<=3 over the reaction alphabet (see mc/nets.py) plus fans"
    core.parallel(ctx, work, ns)
