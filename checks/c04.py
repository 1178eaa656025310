"""C04: the concentration product of every reaction is the product of its reactants' concentrations,
each raised to its multiplicity, in the numba code, the Fortran code and the exported sparse matrix."""
import numpy as np

from mc import backends, core, env, kpp, nets
from checks import gen


def one(ctx, sh, net):
    P = env.parse_mod()
    tag = gen.fingerprint(net)
    case = dict(network=tag)
    ctx.states += 1
    ctx.transitions += len(net)
    try:
        u = gen.prepare(net)
        with core.quiet():
            P.write_reactants_indices("m", u["neq"], u["ns"], u["s2a"], u["reac"], u["loss"])
    except Exception:
        ctx.violation("gen:" + tag, core.short_exc(), case)
        return
    ys = [nets.conc(u["s2a"], s) for s in (0, 1, 3)] + gen.states(net, u["s2a"])
    want = [[kpp.monomial(r, y) for r in net] for y in ys]
    ctx.outcome(want)
    # numba
    try:
        f = gen.load(net, "Reactants_conc_numba.py")["reactants"]
        for y, w in zip(ys, want):
            got = f(gen.vec(y, u["s2a"]), u["neq"], np.zeros(u["neq"]))
            bad = [i for i in range(u["neq"]) if not backends.close(got[i], w[i], 1e-10)]
            if bad:
                ctx.violation("numba:" + tag, "reaction %d: product %r, rate law says %r at y=%r" % (bad[0] + 1, got[bad[0]], w[bad[0]], y), case)
                break
        ctx.traces += 1
    except Exception:
        ctx.violation("numba-run:" + tag, core.short_exc(), case)
    # sparse
    try:
        S = backends.load_sparse("reactants_indices_sparse_m.npz")
        y, w = ys[0], want[0]
        got = np.exp(S @ np.log(gen.vec(y, u["s2a"])))
        bad = [i for i in range(u["neq"]) if not backends.close(got[i], w[i], 1e-9)]
        if S.shape != (u["neq"], u["ns"]) or bad:
            ctx.violation("sparse:" + tag, "sparse reactant matrix gives %r, rate law says %r" % (list(got), w), case)
        idx = np.load("m_reactant_indices.npy", allow_pickle=True)
        st = np.load("m_reactants_stoich_indices.npy", allow_pickle=True)
        yv = gen.vec(y, u["s2a"])
        for i in range(u["neq"]):
            v = 1.0
            for a, s in zip(idx[i], st[i]):
                v *= yv[int(a)] ** float(s)
            if not backends.close(v, w[i], 1e-9):
                ctx.violation("indices:" + tag, "exported reactant indices give %r for reaction %d, rate law says %r" % (v, i + 1, w[i]), case)
                break
        ctx.traces += 1
    except Exception:
        ctx.violation("sparse-run:" + tag, core.short_exc(), case)
    # Fortran, serial text
    try:
        with core.quiet():
            P.write_reactants_indices_fortran("m", u["neq"], u["s2a"], u["reac"], u["loss"], False)
    except Exception:
        ctx.violation("fgen:" + tag, core.short_exc(), case)
        return

    def then(call, u=u, ys=ys, want=want):
        for y, w in zip(ys, want):
            out = np.full(u["neq"], np.nan)
            call(gen.vec(y, u["s2a"]), out)
            bad = [i for i in range(u["neq"]) if not backends.close(out[i], w[i], gen.TOLF)]
            if bad:
                ctx.violation("fortran:" + tag, "reaction %d: product %r, rate law says %r at y=%r" % (bad[0] + 1, out[bad[0]], w[bad[0]], y), case)
                break
        ctx.traces += 1
    sh.add_fortran("Reactants_conc.f90", then, tag)


def work(ctx, items):
    with core.workdir(ctx.scratch):
        sh = gen.Shard(ctx)
        for net in items:
            one(ctx, sh, net)
        sh.flush()


def run(ctx):
    ns = gen.networks(ctx, largest=True)
    ctx.sample(dict(network=nets.key(ns[7])))
    ctx.extra["bound"] = "all networks of depth<=3 over the reaction alphabet (see mc/nets.py) plus fans and the shipped mechanisms"
    core.parallel(ctx, work, ns)
