"""C06: the Jacobian handed to the integrator is, entry by entry, the derivative of the tendencies with
respect to the concentrations at fixed rate coefficients, in the numba and the Fortran code."""
import numpy as np

from mc import backends, core, env, kpp, nets
from checks import gen
from checks.c05 import extremes, rates


def judge(ctx, kind, tag, case, got, u, net, k, y, tol):
    names = list(u["s2a"])
    want, mag = kpp.jacobian(net, k, y, names)
    for a in names:
        for b in names:
            g = got[u["s2a"][a], u["s2a"][b]]
            if not backends.close(g, want[(a, b)], tol, mag[(a, b)]):
                ctx.violation("%s:%s_%s:%s" % (kind, a, b, tag), "d(d%s/dt)/d%s = %r, derivative is %r" % (a, b, float(g), want[(a, b)]), case)
                return False
    return True


def one(ctx, sh, net):
    orders = (0, 1, 2) if not isinstance(net, gen.Jit) and len(net) < 60 and max(len(kpp.side(r.lhs)) for r in net) > 1 else (0,)
    for o in orders:
        order(ctx, sh, net, o)


def order(ctx, sh, net, o):
    P = env.parse_mod()
    tag = gen.fingerprint(net) + ("" if o == 0 else "#%d" % o)
    case = dict(network=gen.fingerprint(net), set_order=("sorted", "reversed", "rotated")[o])
    ctx.states += 1
    ctx.transitions += len(net)
    try:
        u = gen.prepare(net)
        with core.quiet(), gen.set_order(P, o):
            P.write_gas_jacobian_numba("m", u["neq"], u["ns"], u["loss"], u["gain"], u["s2a"], u["reac"])
    except Exception:
        ctx.violation("gen:" + tag, core.short_exc(), case)
        return
    pts = [(rates(u["neq"], s), nets.conc(u["s2a"], s)) for s in (0, 1)]
    if o == 0 and len(u["s2a"]) < 60:
        below = {n for r in net for n, s in kpp.side(r.lhs).items() if s.denominator != 1}
        pts += [(rates(u["neq"], k % 3), y) for k, y in enumerate(gen.states(net, u["s2a"])) if not any(y[n] <= 0.0 for n in below)]
        pts += [(r, pts[0][1]) for r in extremes(u["neq"])[:5]]
    ctx.outcome(sorted(kpp.jacobian(net, pts[0][0], pts[0][1], list(u["s2a"]))[0].items()))
    try:
        f = gen.load(net, "Jacobian_numba.py")["jacobian"]
        for k, y in pts:
            if not judge(ctx, "numba", tag, case, f(np.array(k), gen.vec(y, u["s2a"]), np.zeros((u["ns"], u["ns"]))), u, net, k, y, 1e-10):
                break
        ctx.traces += 1
    except Exception:
        ctx.violation("numba-run:" + tag, core.short_exc(), case)
    try:
        u2 = gen.prepare(net)
        with core.quiet(), gen.set_order(P, o):
            P.write_gas_jacobian_fortran("m", u2["neq"], u2["ns"], u2["loss"], u2["gain"], u2["s2a"], u2["reac"], False)
    except Exception:
        ctx.violation("fgen:" + tag, core.short_exc(), case)
        return

    def then(call, u=u):
        for k, y in pts:
            out = np.full((u["ns"], u["ns"]), np.nan, order="F")
            call(np.array(k), gen.vec(y, u["s2a"]), out)
            if not judge(ctx, "fortran", tag, case, out, u, net, k, y, gen.TOLF):
                break
        ctx.traces += 1
    sh.add_fortran("Jacobian.f90", then, tag)


def work(ctx, items):
    with core.workdir(ctx.scratch):
        sh = gen.Shard(ctx)
        for net in items:
            one(ctx, sh, net)
        sh.flush()


def run(ctx):
    ns = gen.networks(ctx, 1100)
    ctx.sample(dict(network=nets.key(ns[7])))
    ctx.extra["bound"] = "all networks of depth<=3 over the reaction alphabet (see mc/nets.py) plus fans and special names, each with every iteration order of name sets up to rotation"
    core.parallel(ctx, work, ns)
