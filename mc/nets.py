"""Exhaustive families of small reaction networks shared by the generator checks."""
import itertools
import os

from . import core, kpp

R = kpp.Rxn

LHS = [["A"], ["A", "B"], ["A", "hv"], ["2A"], ["A", "A"], ["A", "2B"], ["3A", "B"], ["A", "B", "C"], ["A", "A", "B"],
       ["A", "H2O"], ["A", "O2", "B"], ["2A", "2B"], ["A", "B", "A"], ["A", "B", "B", "C"], ["1.5A", "B"], ["0.5A", "B"],
       ["AIR"], ["2O2", "A"], ["A", "A", "A"], ["4A"], ["3A", "2B"], ["2A", "hv"], ["hv"], ["B", "1.5A"],
       ["A", "0.5B", "2C"], ["hv", "A"], ["hv", "2A", "B"], ["B", "2.5A", "A"]]
RHS = [[], ["B"], ["C"], ["2C"], ["C", "C"], ["A"], ["A", "C"], ["0.5C", "1.5D"], ["C", "D", "E"], ["H2O"], ["hv"],
       ["A", "A"], ["2A", "C"], ["B", "O2"], ["0.35A", "D"], ["3C", "B", "C"]]

PAIR = [(0, 1), (0, 6), (1, 2), (3, 2), (4, 5), (1, 6), (5, 7), (2, 0), (9, 8), (7, 3), (10, 13), (6, 14), (8, 12), (19, 1), (14, 15), (23, 7), (15, 14)]
TRIPLE = [(0, 1), (1, 6), (4, 3), (5, 7), (2, 0), (9, 9), (3, 5)]


def rxn(i, j):
    return R(LHS[i], RHS[j])


def depth1():
    return [n for n in ([rxn(i, j)] for i in range(len(LHS)) for j in range(len(RHS))) if has_species(n)]


def has_species(net):
    return any(n != "hv" for r in net for c, n in list(r.lhs) + list(r.rhs))


def relabel(r, m):
    return R([(c, m.get(n, n)) for c, n in r.lhs], [(c, m.get(n, n)) for c, n in r.rhs], r.rate)


def depth2(second=PAIR):
    """every single-reaction state followed by every core reaction, sharing and permuting species"""
    maps = [{}, {"A": "B", "B": "A"}, {"A": "C", "C": "A"}]
    out = []
    for i in range(len(LHS)):
        for j in range(len(RHS)):
            for k, (a, b) in enumerate(second):
                out.append([rxn(i, j), relabel(rxn(a, b), maps[k % 3])])
    return out


def depth3():
    maps = [{}, {"A": "B", "B": "A"}, {"A": "C", "C": "B", "B": "A"}]
    out = []
    for p in itertools.product(TRIPLE, repeat=3):
        out.append([relabel(rxn(*x), maps[t]) for t, x in enumerate(p)])
    return out


def depth4():
    maps = [{}, {"A": "B", "B": "A"}, {"A": "C", "C": "B", "B": "A"}, {"A": "D", "D": "A"}]
    out = []
    for p in itertools.product(TRIPLE, repeat=4):
        out.append([relabel(rxn(*x), maps[t]) for t, x in enumerate(p)])
    return out


NAMES = ["N2", "H2O2", "O", "O3", "HO2", "M", "OH", "CO2", "H2OX", "O2X", "AIRX", "HVX", "H2", "RO2", "HV", "X2O", "NO", "NO2", "E1", "D2", "R", "Y1"]


def names():
    """species whose names contain, resemble or extend those the generators treat specially"""
    out = []
    for k, n in enumerate(NAMES):
        o = NAMES[(k + 7) % len(NAMES)]
        m = {"A": n, "B": o, "C": "C"}
        for a, b in ((1, 6), (3, 14), (9, 12), (2, 5), (5, 7)):
            out.append([relabel(rxn(a, b), m), relabel(rxn(b % 4, 1), {"A": o, "B": n})])
    return out


def fans(limit):
    """one species in n reactions, as reactant / product / both: exercises line wrapping and block splitting"""
    out = []
    for n in range(2, limit + 1):
        out.append([R(["A", "S%d" % i], ["P%d" % i]) for i in range(n)])
        out.append([R(["S%d" % i], ["A", "Q"]) for i in range(n)])
        out.append([R(["2A"] if i % 2 else ["S%d" % i, "A"], ["0.5A", "2A"] if i % 3 else ["A", "Q"]) for i in range(n)])
        out.append([R(["S%d" % i, "T%d" % (i % 3), "A"], ["S%d" % ((i + 1) % n), "2.5Q"]) for i in range(n)])
    return out


LONG = ["0.12345678901234567", "0.33333333", "12.0000000001", "0.87654321098", "1.00000000001", "0.0000000625", "123456789.0", "100000000000000000000", "0.5", "3"]


def wide(w, top):
    """reaction and species numbers of w digits, coefficients of every length up to a binary64's, many terms per species"""
    n = 10 ** (w - 1)
    rx = [R(["P%d" % i], ["P%d" % (i + 1)]) for i in range(min(n, top))]
    rx += [R(["P1"], ["P2"]) for i in range(n - top)]
    k = len(LONG)
    for i in range(14):
        rx.append(R([("", "X"), ("", "Y"), ("", "Z")], [(LONG[i % k], "W"), (LONG[(3 * i + 2) % k], "X"), ("", "V")]))
        rx.append(R([(("0.5", "1.5", "2", "0.33333", "1.00001")[i % 5], "X"), ("", "Y%d" % i)], [(LONG[(7 * i + 5) % k], "Y"), (LONG[(i + 1) % k], "W")]))
    rx.append(R([(LONG[i % 3], "U") for i in range(2)] + [("", "X")], [(LONG[i], "U") for i in range(3)]))
    return rx


def crowd(n):
    """one species in n reactions"""
    return [R(["X", "S%d" % i], ["X", "Q"] if i % 2 else ["Q", "2X"]) for i in range(n)]


def shipped(*names):
    """mechanisms that come with the code"""
    ps = [os.path.join(core.REPO, "mechanism_files", n + ".eqn.txt") for n in names]
    return [kpp.read(p) for p in ps if os.path.exists(p)]


def key(net):
    if len(net) > 60:
        return "%d_reactions_%s" % (len(net), ";".join(r.key() for r in net[-2:]))
    return ";".join(r.key() for r in net)


def conc(names, salt=0):
    """distinct small primes so different monomials have different values (exact in binary64)"""
    primes = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107,
              109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211]
    out = {}
    for i, n in enumerate(sorted(names)):
        p = primes[(i * (salt + 1) + salt * 7) % len(primes)]
        if len(names) > len(primes):
            p = 2 * i + 3
        out[n] = float(p)
    return out
