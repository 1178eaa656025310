"""C04/C05/C06 share this driver: networks -> real generators -> executed code -> reference comparison."""
import numpy as np

from mc import backends, core, env, kpp, nets

TOLF = 2e-6     # the emitted Fortran uses single precision literals


def networks(ctx, top=20000, largest=False):
    out = [nets.wide(w, top) for w in (1, 2, 3, 4) + ((5,) if top > 1100 or ctx.thorough else ())] + [nets.crowd(n) for n in ((300, 600) if ctx.thorough else (300,))]
    out += nets.depth1() + nets.depth2() + nets.depth3() + nets.names() + nets.fans(40 if ctx.thorough else 16)
    out += nets.shipped("MCM_APINENE", "MCM_BCARY", *(("MCM_mixed_test",) if largest else ()))
    if ctx.thorough:
        out += nets.depth4()
    return compiled(ctx) + out


class Jit(list):
    """a network whose emitted Python is compiled by the real numba as well"""


def together(parts):
    """independent small networks side by side in one mechanism"""
    return Jit(nets.relabel(r, {n: n if n in kpp.CONSTANT or n == "hv" else n + "x%d" % k for t in (r.lhs, r.rhs) for c, n in t}) for k, p in enumerate(parts) for r in p)


def compiled(ctx):
    """every reaction, many pairs and triples, special names and crowded species, grouped into a few mechanisms"""
    d2, d3 = nets.depth2(), nets.depth3()
    small = nets.depth1() + d2[::29 if ctx.thorough else 97] + d3[::29 if ctx.thorough else 97]
    size = 16
    out = [together(small[i:i + size]) for i in range(0, len(small), size)]
    out += [Jit(r for n in nets.names()[i:i + 12] for r in n) for i in range(0, len(nets.names()), 12)] + [Jit(nets.crowd(12))]
    return out


def load(net, path):
    return backends.import_numba(path, "compiled") if isinstance(net, Jit) else backends.exec_numba(path)


def ordered_set(order):
    """the built-in set with a chosen iteration order: the generators iterate over sets of names, whose order the
    language leaves to the hash seed of the process"""
    class Set(set):
        __slots__ = ()

        def __iter__(self):
            xs = sorted(set.__iter__(self), key=str)
            if order == 1:
                xs.reverse()
            elif order == 2:
                xs = xs[1:] + xs[:1]
            return iter(xs)

        def pop(self):
            x = next(iter(self))
            self.discard(x)
            return x
    for n in ("union", "intersection", "difference", "symmetric_difference", "copy", "__or__", "__and__", "__sub__", "__xor__"):
        def f(self, *a, _n=n):
            r = getattr(set, _n)(self, *a)
            return r if r is NotImplemented else Set(r)
        setattr(Set, n, f)
    return Set


class set_order(object):
    def __init__(self, module, order):
        self.m, self.order = module, order

    def __enter__(self):
        self.m.__dict__["set"] = ordered_set(self.order)

    def __exit__(self, *a):
        self.m.__dict__.pop("set", None)


def fingerprint(net):
    return nets.key(net)


def states(net, names):
    """points where every monomial is distinct, one concentration zero or slightly negative, magnitudes spread over 40 decades"""
    import math
    names = sorted(names)
    fraction = {n for r in net for n, s in kpp.side(r.lhs).items() if s.denominator != 1}
    base = nets.conc(names, 1)
    many = len(names) > 12
    out = []
    for k, n in enumerate(names if not many else names[::len(names) // 6]):
        out.append(dict(base, **{n: 0.0}))
        if n not in fraction:
            out.append(dict(base, **{n: -0.004 * (k + 3)}))
    out.append({n: 0.0 for n in names})
    for s in (0, 5):
        out.append({n: math.ldexp(1.0 + (i % 7) / 8.0, ((i + s) * 37) % 130 - 66) for i, n in enumerate(names)})
    out.append({n: 3.0e18 + 1e17 * i for i, n in enumerate(names)})
    out.append({n: 1.0 for n in names})
    return out


def prepare(net):
    od = backends.parse(kpp.text(net))
    u = backends.unpack(od)
    return u


def vec(d, s2a):
    v = np.zeros(len(s2a))
    for n, i in s2a.items():
        v[i] = d[n]
    return v


class Shard(object):
    """one worker's share; Fortran subroutines are collected and compiled in slices"""

    def __init__(self, ctx, flags=("-O0",), slice_=400):
        self.ctx, self.flags, self.slice, self.pending, self.batch = ctx, flags, slice_, [], None
        self.nb = 0

    def add_fortran(self, path, then, label=None):
        if self.batch is None:
            self.nb += 1
            self.batch = backends.FortranBatch(self.ctx.scratch, self.flags, tag="x%d_" % self.nb)
        nm = self.batch.add(path)
        self.pending.append((nm, then, label))
        if len(self.pending) >= self.slice:
            self.flush()

    def flush(self):
        if not self.pending:
            return
        b = self.batch.build()
        for nm, then, label in self.pending:
            if nm in b.errors:
                self.ctx.violation("fortran-compile:" + (label or nm), "emitted Fortran does not compile: " + b.errors[nm],
                                   dict(network=label))
                continue
            then(lambda *a, _nm=nm: b.call(_nm, *a))
        self.pending, self.batch = [], None
