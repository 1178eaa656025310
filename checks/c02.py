"""C02: rate expressions mean the same in the generated Python, Numba and Fortran code as in the mechanism.

Explored: every expression of the grammar below to the depth bound (number formats, generic coefficients,
photolysis references, functions, operators, powers, parentheses, white space), plus the shipped mechanisms
whole.  Each goes through the real parser, converter and writer; the emitted evaluators are executed on a
lattice of temperature, RO2, H2O and time of day and compared with an independent evaluator of the grammar.
"""
import os
import re

import numpy as np

from mc import backends, core, env, kpp, mcm
from checks import rates

ENVS = [(298.15, 7.0e9, 4.3e17, 43200.0), (250.0, 3.0e8, 1.1e17, 28800.0), (310.0, 6.1e3, 9.7e17, 57000.0)]
TOL = {"python": 1e-9, "numba": 1e-9, "fortran": 4e-5}
FUNCS = ["EXP", "LOG10", "LOG", "dlog", "dabs", "dsqrt"]
NUM = ["2.7", "3", "1.90D-12", "4.20D+10", "5.0D3", "7D2", "1.0D0", ".5", "6.2E-3", "1E2", "3.0D11", "8.D-1", "2.5D+02"]
NAME = ["TEMP", "RO2", "H2O", "O2", "M", "KMT11", "KRO2NO", "K298CH3O2", "KDEC"]
PHOT = ["J(4)", "J(22)", "J(61)"]
EXPO = ["2", "0.5", "-2.6", "-1.0", "(0.5)", "(-0.5)"]


class E(object):
    """expression text, whether it is integer typed, whether it binds looser than * (needs care as operand)"""
    __slots__ = ("s", "i", "p")

    def __init__(self, s, i=False, p=3):
        self.s, self.i, self.p = s, i, p


def atom(s):
    return E(s, s == "3")


def fun(f, a):
    return None if a.i else E("%s(%s)" % (f, a.s))


def par(a):
    return E("(%s)" % a.s, a.i)


def op(a, o, b):
    if o == "/" and a.i and b.i:
        return None
    return E(a.s + o + b.s, a.i and b.i, 1 if o in "+-" else 2)


def pw(a, e):
    if a.p < 3 or "**" in a.s and not a.s.endswith(")"):
        return None
    if a.i and e.strip("()-").isdigit() and "-" in e:
        return None
    return E(a.s + "**" + e, a.i and e == "2", 2)


def grammar(thorough):
    A = [atom(s) for s in NUM + NAME + PHOT]
    S = [atom(s) for s in ["2.7", "3", "1.90D-12", "5.0D3", "TEMP", "RO2", "KMT11", "J(22)"]]
    out = list(A)
    out += [atom(n) for n in mcm.NAMES] + [atom("J(%d)" % c) for c in mcm.CHANNELS]
    d1 = [fun(f, a) for f in FUNCS for a in A] + [par(a) for a in A] + [pw(a, e) for a in A for e in EXPO]
    d1 += [op(a, o, b) for a in A for o in "+-*/" for b in A]
    out += d1
    s1 = [fun(f, a) for f in FUNCS for a in S[:1] + S[4:6]] + [op(a, o, b) for a in S for o in "+-*/" for b in S]
    s1 += [pw(a, e) for a in S for e in EXPO[:3]]
    s1 = [e for e in s1 if e is not None]
    if not thorough:
        s1 = [e for e in s1 if not e.i]
    for e in s1:
        out += [fun(f, e) for f in FUNCS]
        out += [pw(par(e), x) for x in ("2", "0.5", "-2.6")]
        for a in S:
            for o in "+-*/":
                out += [op(e, o, a), op(a, o, par(e)), op(par(e), o, a)]
                if e.p == 3:
                    out.append(op(a, o, e))
    # functions of functions and products of functions: every ordered pair and triple
    args = ["TEMP", "500.0/TEMP", "2.0D0", "TEMP/300.", "J(4)*RO2", "-1.5D0*2.0", "(RO2)", "(TEMP+2.0)*3.0D-1"]
    for f in FUNCS:
        for g in FUNCS:
            for x in args:
                out += [E("%s(%s(%s))" % (f, g, x)), E("%s(%s)*%s(%s)" % (f, x, g, "500.0/TEMP")),
                        E("1.5D-11*%s(%s)+%s(%s)*J(4)" % (f, x, g, "TEMP/300.")),
                        E("(%s(%s)+%s(TEMP))**0.5" % (f, x, g))]
            for h in FUNCS:
                out += [E("%s(200.0/TEMP)*%s(TEMP/300.0)-%s(3.0D0)" % (f, g, h)),
                        E("%s(1.0+%s(2.0+%s(TEMP/100.)))" % (f, g, h))]
    # forms of the MCM
    for k in ("KCH3O2", "K298CH3O2", "KMT06", "KAPHO2"):
        for j in ("J(22)", "J(11)"):
            for e in ("0.5", "2"):
                out += [E("2*(%s*2.9D-12*EXP(500/TEMP))**%s*RO2*0.6" % (k, e)), E("%s+%s*0.5" % (k, j)),
                        E("2.03D-16*(TEMP/300)**4.57*EXP(693/TEMP)*%s" % k), E("%s*(1-4.34D-1*EXP(-20/TEMP))" % k),
                        E("1.00D+07*(TEMP/298)**%s*EXP(-5000/TEMP)" % e), E("%s*%s*%s*RO2" % (k, j, e)),
                        E("2.4D-14*EXP(-1.0*TEMP/%s)*(%s+%s)" % ("204", k, j)),
                        E("1.15D-11*EXP(-190/TEMP)*EXP(2.3D8/TEMP**3)*%s" % e), E("5.6D-34*N2*(TEMP/300)**-2.6*O2+6.0D-34*O2*(TEMP/300)**-2.6*O2"),
                        E("3.8D-13*EXP(780/TEMP)*(1-1/(1+498*EXP(-1160/TEMP)))"), E("2.2D-13*KMT06*EXP(600/TEMP)+1.9D-33*M*KMT06*EXP(980/TEMP)")]
    # every exponent notation
    for L in "DE":
        for g in ("", "+", "-"):
            for n in range(30):
                for w in ("%d", "%02d"):
                    x = L + g + w % n
                    out += [E("4.5%s" % x), E("TEMP*2.%s+6%s" % (x, x))]
                    if thorough or n % 7 == 2:
                        out += [E("EXP(-1.25%s/TEMP)*.5%s" % (L + g + "02" if g != "-" else L + "01", x)), E("1.5%s*J(4)*(TEMP/3.0D2)**2" % x)]
    # long expressions
    for n in range(2, 40 if thorough else 24):
        out.append(E("+".join("%d.5D-%d*EXP(%d/TEMP)" % (i + 1, 9 + i % 5, 100 + i) for i in range(n))))
        out.append(E("*".join("J(%d)" % mcm.CHANNELS[i % 36] if i % 2 else "TEMP" for i in range(n))))
        out.append(E("(" * n + "TEMP" + "+1.0D0)" * n))
    seen, res = set(), []
    for e in out:
        if e is not None and e.s not in seen:
            seen.add(e.s)
            res.append(e.s)
    return res


def literal32(m):
    return repr(float(np.float32(float(m.group(0).replace("D", "E").replace("d", "e")))))


_LIT = re.compile(r"(?<![A-Za-z0-9_.])(?:\d+\.\d*|\.\d+|\d+(?=[DE]))(?:[DE][-+]?\d+)?")


def reference(expr, e):
    """value, or None where the expression itself is undefined / out of range / ill conditioned"""
    try:
        parser = kpp.Parser(expr, e)
        v = parser.value()
        if parser.worst < 1e-2:
            return None
        if isinstance(v, complex) or not np.isfinite(v) or abs(v) > 1e30 or (v != 0 and abs(v) < 1e-60):
            return None
        w = kpp.evaluate(_LIT.sub(literal32, expr), e)
        d = dict(e)
        for k in d:
            if k != "J":
                d[k] = e[k] * (1.0 + 3e-7)
        d["J"] = {k: x * (1 - 5e-7) for k, x in e["J"].items()}
        u = kpp.evaluate(expr, d)
        if isinstance(w, complex) or isinstance(u, complex):
            return None
        if abs(w - v) > 1e-5 * abs(v) or abs(u - v) > 1e-5 * abs(v):
            return None
        return v
    except (ValueError, OverflowError, ZeroDivisionError):
        return None


def defined(expr, e):
    """the expression and all its parts have a value: nothing divides by zero, overflows or underflows"""
    try:
        v = kpp.evaluate(expr, e)
        return not isinstance(v, complex) and bool(np.isfinite(v))
    except (ValueError, OverflowError, ZeroDivisionError):
        return False


def judge(ctx, unit, tag):
    """run all backends over the lattice and compare; units that fail to build are split"""
    for b in rates.BACKENDS:
        msg = unit.err.get(b)
        if msg is None and b == "fortran" and unit.nm in unit.fb.errors:
            msg = "emitted Fortran does not compile: " + unit.fb.errors[unit.nm][-300:]
        if msg is not None:
            split(ctx, unit, b, msg, tag)
            continue
        for T, R, H, t in ENVS:
            e = mcm.environment(T, R, H, t, b)
            try:
                got = unit.run(b, T, R, H, t)
            except Exception:
                split(ctx, unit, b, core.short_exc(), tag)
                break
            for i, x in enumerate(unit.exprs):
                ctx.transitions += 1
                key = (x, b == "python", T)
                if key not in _ref:
                    _ref[key] = reference(x, e)
                w = _ref[key]
                if w is None:
                    ctx.count("outside_domain")
                    continue
                ctx.traces += 1
                if not abs(got[i] - w) <= TOL[b] * abs(w):
                    ctx.violation("%s:%s" % (b, x), "%s evaluates %s to %r instead of %r at T=%g RO2=%g H2O=%g t=%g (reaction %d of %d)" %
                                  (b, x, float(got[i]), w, T, R, H, t, i + 1, unit.n), dict(expr=x, backend=b, env=[T, R, H, t]))
                elif b == "numba":
                    ctx.outcome("%.5e" % w)


_ref = {}


def split(ctx, unit, b, msg, tag):
    """find the expressions that make this backend fail"""
    if len(unit.exprs) == 1:
        x = unit.exprs[0]
        ctx.violation("%s:%s" % (b, x), "%s: %s cannot be evaluated: %s" % (b, x, msg), dict(expr=x, backend=b))
        return
    h = len(unit.exprs) // 2
    bad = False
    for part in (unit.exprs[:h], unit.exprs[h:]):
        u = rates.Unit(part)
        batch = backends.FortranBatch(ctx.scratch, tag="sp%d_" % split.n)
        split.n += 1
        u.generate(batch)
        batch.build()
        m = u.err.get(b)
        if m is None and b == "fortran" and u.nm in batch.errors:
            m = batch.errors[u.nm][-300:]
        if m is None and b != "fortran":
            try:
                for T, R, H, t in ENVS:
                    u.run(b, T, R, H, t)
            except Exception:
                m = core.short_exc()
        if m is not None:
            bad = True
            split(ctx, u, b, m, tag)
    if not bad:
        ctx.violation("%s-unit:%s" % (b, unit.exprs[0]), "%d expressions together fail in %s: %s" % (len(unit.exprs), b, msg),
                      dict(exprs=unit.exprs[:50]))


split.n = 0


def work(ctx, items):
    with core.workdir(ctx.scratch):
        batch = backends.FortranBatch(ctx.scratch, tag="r")
        units = []
        for k, exprs in items:
            style = [None, dict(sep="  "), dict(brk2="\n   ", sep="\t "), dict(tab="")][k % 4]
            ex = [spaced(x) if k % 3 == 1 else x for x in exprs]
            u = rates.Unit(exprs, rates.mechanism(ex, style))
            u.generate(batch, openmp=bool(k % 2))
            units.append(u)
            ctx.states += len(exprs)
        batch.build()
        for u in units:
            judge(ctx, u, "")


def spaced(x):
    """KPP lets blanks stand around operators"""
    return re.sub(r"(?<=[A-Za-z0-9_.)])(?<![DE])([*+/]|(?<![DE])-)(?=[A-Za-z0-9.(])", r" \1 ", x) if "**" not in x else x


def slots(ctx, items):
    """mechanisms of n reactions with pairwise different rates: the n-th value stands in the n-th place"""
    with core.workdir(ctx.scratch):
        for k, n in enumerate(items):
            # the last ones with every length from one to over two lines of Fortran
            exprs = ["%d.5%sD-3*TEMP" % (i + 1, "0" * (i % 260 if i >= n - 260 > 0 else 0)) for i in range(n)]
            u = rates.Unit(exprs, kpp.text([kpp.Rxn(["A"], ["B"], x) for x in exprs]))
            batch = backends.FortranBatch(ctx.scratch, tag="n%d_" % n)
            u.generate(batch, openmp=bool(k % 2))
            batch.build()
            ctx.states += n
            judge(ctx, u, "slots%d" % n)
            _ref.clear()


def whole(ctx, items):
    """shipped mechanisms, all reactions at once"""
    with core.workdir(ctx.scratch):
        for path in items:
            with open(os.path.join(core.REPO, path)) as f:
                text = f.read()
            exprs = own_rates(text)
            u = rates.Unit(exprs, text)
            batch = backends.FortranBatch(ctx.scratch, tag="w")
            u.generate(batch, openmp=True)
            batch.build()
            ctx.states += len(set(exprs))
            ctx.count("shipped_reactions", len(exprs))
            judge(ctx, u, path)


def own_rates(text):
    """the rate text of each reaction, read independently of the parser under test"""
    body = re.sub(r"\s+", "", re.sub(r"(?m)^(?:#|//).*$", "", text))
    return [m.group(1) for m in re.finditer(r"\{\d+\.\}[^:;{}]*:([^;]*);", body)]


def jitted(ctx):
    """the emitted module under the real numba: same values as with numba stubbed out"""
    exprs = ["1.90D-12*EXP(190/TEMP)", "2*(K298CH3O2*2.9D-12)**0.5*RO2*0.6", "J(41)+J(22)*0.5", "LOG10(TEMP)*dlog(RO2)", "dsqrt(dabs(-2.0D0))",
             "4.20D+10*EXP(-3523/TEMP)", "KMT06*(TEMP/300)**-2.6", "3", "1.0D0", "LOG(H2O)*O2"]
    with core.workdir(ctx.scratch):
        u = rates.Unit(exprs)
        batch = backends.FortranBatch(ctx.scratch, tag="j")
        u.generate(batch)
        try:
            f = backends.import_numba("Rate_coefficients_numba.py", "jitted")["evaluate_rates"]
        except Exception:
            ctx.violation("numba-jit", core.short_exc(), dict(exprs=exprs))
            return
        for T, R, H, t in ENVS:
            got = f(t, R, H, T, np.zeros(len(exprs)), np.zeros(63))
            e = mcm.environment(T, R, H, t, "numba")
            for i, x in enumerate(exprs):
                ctx.traces += 1
                w = kpp.evaluate(x, e)
                if not abs(got[i] - w) <= 1e-9 * abs(w):
                    ctx.violation("jit:%s" % x, "jitted numba gives %r, mechanism %r" % (got[i], w), dict(expr=x))


def run(ctx):
    g = grammar(ctx.thorough)
    ctx.extra["grammar_expressions"] = len(g)
    ctx.sample(dict(expression=g[1000]))
    # keep only expressions defined somewhere on the lattice (the rest have no meaning to preserve)
    keep = []
    envs = [mcm.environment(T, R, H, t, "numba") for T, R, H, t in ENVS]
    for x in g:
        if all(defined(x, e) for e in envs) and any(reference(x, e) is not None for e in envs):
            keep.append(x)
    ctx.extra["defined_on_lattice"] = len(keep)
    units = [(k, keep[i:i + 150]) for k, i in enumerate(range(0, len(keep), 150))]
    core.parallel(ctx, work, units)
    files = ["mechanism_files/MCM_APINENE.eqn.txt", "mechanism_files/MCM_BCARY.eqn.txt", "MCM_test.eqn.txt"]
    if ctx.thorough:
        files.append("MCM_mixed_test.eqn.txt")
    core.parallel(ctx, whole, files)
    core.parallel(ctx, slots, [10001, 4097, 1001, 1000, 999, 257, 256, 255] + list(range(1, 40)) + [65, 99, 100, 101, 129])
    jitted(ctx)


def replay(ctx, case):
    with core.workdir(ctx.scratch):
        u = rates.Unit([case["expr"]])
        batch = backends.FortranBatch(ctx.scratch, tag="j")
        u.generate(batch)
        batch.build()
        judge(ctx, u, "replay")
