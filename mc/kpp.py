"""Reference model: a reaction network as plain Python data, its KPP text, and its meaning.

A reaction is (reactants, products, rate) with reactants/products a list of (coef_text, name);
coef_text '' means 1.  Nothing here looks at the code under test.
"""
from fractions import Fraction
import math
import re

CONSTANT = ("AIR", "H2O", "O2", "hv")   # held constant by PyBox: no tendency


class Rxn(object):
    __slots__ = ("lhs", "rhs", "rate")

    def __init__(self, lhs, rhs, rate="1.0D0"):
        self.lhs = [self._t(x) for x in lhs]
        self.rhs = [self._t(x) for x in rhs]
        self.rate = rate

    @staticmethod
    def _t(x):
        if isinstance(x, tuple):
            return x
        m = re.match(r"^(\d*\.?\d*)(.*)$", x)
        return (m.group(1), m.group(2))

    def key(self):
        return "+".join(c + n for c, n in self.lhs) + "=" + "+".join(c + n for c, n in self.rhs)

    def __repr__(self):
        return self.key() + ":" + self.rate


def side(terms):
    """net multiplicity of each species on one side (hv is a photon, not a species)"""
    out = {}
    for c, n in terms:
        if n == "hv" or n == "":
            continue
        out[n] = out.get(n, Fraction(0)) + (Fraction(c) if c else Fraction(1))
    return out


def species_of(rxns):
    out = []
    for r in rxns:
        for c, n in r.lhs + r.rhs:
            if n not in ("hv", "") and n not in out:
                out.append(n)
    return out


def text(rxns, style=None):
    s = style or {}
    sep = s.get("sep", " ")
    num = s.get("num", "{%d.}")
    eol = s.get("eol", "\n")
    cs = s.get("coefsep", "")
    tab = s.get("tab", "\t")
    brk = s.get("brk", "")          # inserted once after '=' : a reaction over several lines
    brk2 = s.get("brk2", "")        # inserted before ':'
    lead = s.get("lead", " \t ")
    out = []
    for i, r in enumerate(rxns):
        def fmt(ts):
            return (sep + "+" + sep).join((c + cs if c else "") + n for c, n in ts)
        out.append((num % (i + 1)) + lead + fmt(r.lhs) + sep + "=" + brk + sep + fmt(r.rhs) + sep + brk2 + ":" +
                   sep + tab + r.rate + sep + tab + ";" + eol)
    return "".join(out)


# ---------------------------------------------------------------- meaning of the network
def monomial(rxn, y):
    """product of reactant concentrations, each to the power of its multiplicity"""
    v = 1.0
    for n, s in side(rxn.lhs).items():
        v *= y[n] ** float(s)
    return v


def tendency(rxns, r, names):
    """dy/dt = sum over reactions (produced - consumed) * r ; also the sum of magnitudes"""
    out = {n: 0.0 for n in names}
    mag = {n: 0.0 for n in names}
    for rx, rv in zip(rxns, r):
        for n, s in side(rx.rhs).items():
            out[n] += float(s) * rv
            mag[n] += abs(float(s) * rv)
        for n, s in side(rx.lhs).items():
            out[n] -= float(s) * rv
            mag[n] += abs(float(s) * rv)
    for n in names:
        if n in CONSTANT:
            out[n] = 0.0
    return out, mag


def jacobian(rxns, k, y, names):
    """d(dy_i/dt)/dy_j at fixed rate coefficients k; also sum of magnitudes"""
    J = {(a, b): 0.0 for a in names for b in names}
    mag = dict(J)
    for rx, kv in zip(rxns, k):
        lhs, rhs = side(rx.lhs), side(rx.rhs)
        for j, sj in lhs.items():
            d = kv * float(sj) * y[j] ** (float(sj) - 1.0)
            for o, so in lhs.items():
                if o != j:
                    d *= y[o] ** float(so)
            for i in set(lhs) | set(rhs):
                if i in CONSTANT:
                    continue
                J[(i, j)] += float(rhs.get(i, 0)) * d - float(lhs.get(i, 0)) * d
                mag[(i, j)] += abs(float(rhs.get(i, 0)) * d) + abs(float(lhs.get(i, 0)) * d)
    return J, mag


def read(path):
    """independent reader of the shipped .eqn.txt files"""
    out = []
    with open(path) as f:
        data = f.read()
    for item in data.split(";"):
        if "}" not in item:
            continue
        body = item.split("}", 1)[1]
        eq, rate = body.split(":", 1)
        l, r = eq.split("=", 1)

        def terms(s):
            ts = []
            for t in s.split("+"):
                t = "".join(t.split())
                if not t:
                    continue
                m = re.match(r"^(\d*\.?\d*)(\D.*)$", t)
                ts.append((m.group(1), m.group(2)))
            return ts
        out.append(Rxn(terms(l), terms(r), "".join(rate.split())))
    return out


# ---------------------------------------------------------------- KPP rate expressions
class Parser(object):
    """evaluator for KPP/Fortran style rate expressions (own grammar, double precision)"""
    FUNCS = {"EXP": math.exp, "LOG": math.log, "LOG10": math.log10, "DLOG": math.log, "DABS": abs,
             "DSQRT": math.sqrt, "ABS": abs, "SQRT": math.sqrt}
    tok = re.compile(r"\s*(?:(\d+\.?\d*(?:[DEde][-+]?\d+)?|\.\d+(?:[DEde][-+]?\d+)?)|([A-Za-z_][A-Za-z_0-9]*)|(\*\*|[-+*/()]))")

    def __init__(self, s, env):
        self.env = env
        self.t = []
        i = 0
        s = s.strip()
        while i < len(s):
            m = self.tok.match(s, i)
            if not m:
                raise ValueError("bad rate " + s)
            i = m.end()
            if m.group(1):
                self.t.append(("n", float(re.sub("[Dd]", "E", m.group(1)))))
            elif m.group(2):
                self.t.append(("v", m.group(2)))
            else:
                self.t.append(("o", m.group(3)))
        self.i = 0
        self.worst = 1.0        # smallest |a+-b| / max(|a|,|b|): how much a sum or difference cancels

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("e", None)

    def take(self):
        v = self.peek()
        self.i += 1
        return v

    def value(self):
        v = self.sum()
        if self.peek()[0] != "e":
            raise ValueError("trailing")
        return v

    def sum(self):
        if self.peek() == ("o", "-"):
            self.take()
            v = -self.prod()
        elif self.peek() == ("o", "+"):
            self.take()
            v = self.prod()
        else:
            v = self.prod()
        while self.peek() in (("o", "+"), ("o", "-")):
            op = self.take()[1]
            w = self.prod()
            big = max(abs(v), abs(w))
            v = v + w if op == "+" else v - w
            if big > 0:
                self.worst = min(self.worst, abs(v) / big)
        return v

    def prod(self):
        v = self.power()
        while self.peek() in (("o", "*"), ("o", "/")):
            op = self.take()[1]
            w = self.power()
            v = v * w if op == "*" else v / w
        return v

    def power(self):
        b = self.atom()
        if self.peek() == ("o", "**"):
            self.take()
            if self.peek() in (("o", "-"), ("o", "+")):
                sg = -1.0 if self.take()[1] == "-" else 1.0
                e = sg * self.power()
            else:
                e = self.power()
            return b ** e
        return b

    def atom(self):
        k, v = self.take()
        if k == "n":
            return v
        if k == "v":
            if v == "J":
                assert self.take() == ("o", "(")
                n = self.sum()
                assert self.take() == ("o", ")")
                return self.env["J"][int(n)]
            if self.peek() == ("o", "("):
                self.take()
                a = self.sum()
                assert self.take() == ("o", ")")
                r = self.FUNCS[v.upper()](a)
                if v.upper() == "EXP" and not 1e-290 < r < 1e290:
                    raise OverflowError("EXP out of range")
                return r
            return self.env[v]
        if (k, v) == ("o", "("):
            a = self.sum()
            assert self.take() == ("o", ")")
            return a
        raise ValueError("atom %r" % ((k, v),))


def evaluate(expr, env):
    return Parser(expr, env).value()
