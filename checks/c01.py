"""C01: the parsed reaction network is the one the mechanism text denotes.

Transition system: state = the mechanism text written so far, transition = append one reaction from a
finite alphabet (terms x coefficients x spellings x layouts).  Every state is handed to the real parser
and compared field by field with the reference network.
"""
import itertools
import os
import re

from mc import backends, core, env, kpp

NAMES = ["A", "NO2", "C2H5O2", "O3", "N2O5", "E", "D2O", "C10H16"]
COEF = ["", "2", "2.0", "0.5", ".5", "1", "1.0", "12", "1.25", "3.", "10", "0.05"]


def alphabet_terms():
    return [(c, n) for c in COEF for n in NAMES]


def styles():
    out = []
    for sep in (" ", "", "  "):
        for num in ("{%d.}", "{%d}"):
            for brk in ("", "\n", "\n\t", "\r\n   "):
                for eol in ("\n", "", "\n\n", "\r\n"):
                    for lead in (" \t ", "", "\n"):
                        out.append(dict(sep=sep, num=num, brk=brk, eol=eol, lead=lead, tab=""))
    out += [dict(sep=" ", tab="\t", brk2="\n\t", coefsep=""), dict(sep=" ", tab="\t", coefsep=" "),
            dict(sep="\t", tab="\t"), dict(sep=" \t", tab="\t\t", coefsep=" "), dict(sep=" ", tab="    ", brk2="\n"),
            dict(sep="\n", tab=""), dict(sep=" \n ", tab="\t", coefsep="")]
    return out


def expect(rxns):
    loss, gain, reac = {}, {}, {}
    for i, r in enumerate(rxns):
        for n, s in kpp.side(r.lhs).items():
            loss.setdefault(n, {})[i] = float(s)
        for n, s in kpp.side(r.rhs).items():
            gain.setdefault(n, {})[i] = float(s)
        reac[i] = {n: float(s) for n, s in kpp.side(r.lhs).items()}
    return dict(loss=loss, gain=gain, reac=reac, names=sorted(kpp.species_of(rxns)),
                rate={i: "".join(r.rate.split()) for i, r in enumerate(rxns)}, n=len(rxns))


def observe(od):
    u = backends.unpack(od)
    reac = {}
    for i in range(u["neq"]):
        steps = dict(u["reac"][i]) if i in u["reac"] else {}
        st = dict(od["stoich_dict"][i]) if i in od["stoich_dict"] else {}
        d = {}
        for k, n in steps.items():
            d[n] = d.get(n, 0.0) + float(st[k])
        reac[i] = d
    idx = u["s2a"]
    bij = (sorted(idx.values()) == list(range(len(idx))) and {v: k for k, v in idx.items()} == dict(u["sd"]))
    return dict(loss=backends.nested(u["loss"]), gain=backends.nested(u["gain"]), reac=reac, names=sorted(idx),
                rate={int(k): v for k, v in dict(u["rate"]).items()}, n=u["neq"]), bij


def agree(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(agree(a[k], b[k]) for k in a)
    if isinstance(b, float):        # sums of coefficients: to rounding
        return isinstance(a, (int, float)) and abs(a - b) <= 1e-12 * abs(b)
    return a == b


def compare(ctx, tag, text, rxns):
    ctx.states += 1
    ctx.traces += 1
    try:
        od = backends.parse(text)
        got, bij = observe(od)
    except Exception:
        ctx.violation(tag, "parser failed on valid mechanism: " + core.short_exc(), dict(text=text))
        return
    want = expect(rxns)
    ctx.outcome((sorted(got["loss"].items()), sorted(got["gain"].items())))
    for f in ("n", "names", "reac", "loss", "gain", "rate"):
        if not agree(got[f], want[f]):
            ctx.violation(tag, "%s: parsed %r, mechanism says %r" % (f, got[f], want[f]), dict(text=text))
            return
    if not bij:
        ctx.violation(tag, "species numbering is not a bijection onto 0..n-1: %r" % (dict(od["species_dict2array"]),),
                      dict(text=text))


# ---------------------------------------------------------------- enumeration layers
R = kpp.Rxn


def layer_terms():
    """every coefficient spelling on every name, on either side, alone and repeated"""
    for c, n in alphabet_terms():
        yield "lhs:" + c + n, [R([(c, n)], ["B"])]
        yield "rhs:" + c + n, [R(["B"], [(c, n)])]
        yield "both:" + c + n, [R([(c, n)], [(c, n)])]
        for c2 in ("", "2", "0.5"):
            yield "lhs2:%s%s+%s" % (c, n, c2), [R([(c, n), (c2, n)], ["B"])]
            yield "rhs2:%s%s+%s" % (c, n, c2), [R(["B"], [(c, n), (c2, n)])]
            yield "cat:%s%s+%s" % (c, n, c2), [R([(c, n), ("", "B")], [("", "B"), (c2, n)])]


SIDE_L = [["A"], ["A", "OH"], ["A", "hv"], ["hv", "A"], ["HO2", "HO2"], ["2HO2"], ["A", "NO2", "O3"], ["A", "A", "A"],
          ["A", "H2O"], ["O2", "A"], ["NO3", "2NO2"], ["A", "A", "OH"], ["A", "OH", "A"]]
SIDE_R = [[], ["B"], ["OH"], ["A"], ["OH", "B"], ["B", "OH"], ["B", "B"], ["2B", "B"], ["0.5B", "0.5C", "OH"],
          ["A", "A"], ["HO2", "A"], ["B", "hv"], ["H2O", "O2"], ["B", "C", "NO2", "O3"], ["OH", "OH"], ["2.0HO2"]]
RATES = ["1.2D-12*EXP(490/TEMP)*0.65", "J(4)", "KMT06*2.20E-13*EXP(600/TEMP)+1.90D-33*M*EXP(980/TEMP)", "KDEC*0.5",
         "2.0*( K298CH3O2 * 2.9D-12 )**0.5 * RO2", "5.6D-34*N2*(TEMP/300)**-2.6*O2"]


def layer_sides():
    k = 0
    for l in SIDE_L:
        for r in SIDE_R:
            yield "sides", [R(l, r, RATES[k % len(RATES)])]
            k += 1


CORE = [R(["A"], ["B"], RATES[0]), R(["B"], ["A", "C"], RATES[1]), R(["A", "OH"], ["OH", "D"], RATES[2]),
        R(["HO2", "HO2"], ["H2O2"], RATES[3]), R(["A"], ["OH", "OH"], RATES[4]), R(["C", "hv"], [], RATES[5]),
        R(["B", "OH"], ["0.5A", "B"], RATES[0]), R(["D"], ["2HO2", "A"], RATES[1])]


def layer_seq(depth, alpha):
    for seq in itertools.product(range(len(alpha)), repeat=depth):
        yield "seq" + "-".join(map(str, seq)), [alpha[i] for i in seq]


def layer_layout():
    net = [R(["A", "2NO2"], ["B", "0.5C2H5O2"], RATES[2]), R(["HO2", "HO2"], [], RATES[1]), R(["B", "hv"], ["A", "A"], RATES[4])]
    for i, s in enumerate(styles()):
        yield "layout%d" % i, net, s


def layer_coef():
    """every length of the digits before and after the point of a coefficient, either side, with and without a blank"""
    for a, b in itertools.product(range(0, 8), range(0, 10)):
        for dot in ("", ".") if not b else (".",):
            if not a and not b:
                continue
            c = "3604179"[:a] + dot + "287645013"[:b]
            for n in ("A", "C2H5O2"):
                yield "coefl:" + c + n, [R([(c, n), ("", "B")], ["D"])]
                yield "coefr:" + c + n, [R(["B"], ["D", (c, n)])]


def layer_numbers(thorough):
    """reaction labels: widths and padding, any number of reactions"""
    net = lambda n: [R(["A"], ["B%d" % (i % 3)], RATES[i % len(RATES)]) for i in range(n)]
    for w in range(1, 9):
        for dot in ("", "."):
            for n in (1, 2, 9, 10, 11, 99, 100, 101):
                yield "numbers%d%s%d" % (w, dot, n), net(n), dict(num="{%%0%dd%s}" % (w, dot))
    for n in (254, 255, 256, 257, 510, 513, 999, 1000, 1001, 1023, 1025, 2047, 2049, 4095, 4097, 8191, 8193, 9999, 10000, 10001, 16383, 16385, 32767, 32769, 65537)[:None if thorough else 22]:
        yield "number%d" % n, net(n), None


def layer_large(thorough):
    """many species: each is named again by later reactions, from either side"""
    for n in (255, 257, 999, 1001, 1023, 1025, 2047, 2049, 4095, 4097, 5101, 8193) + ((10001, 16385) if thorough else ()):
        rx = [R(["A"], ["S%dX" % i, "S%dY" % i], "1.0") for i in range((n - 1) // 2)]
        for i in range(0, n // 2, max(1, n // 40)):
            rx += [R(["S%dY" % i], ["S%dX" % i, "A"], "2.0"), R(["S%dX" % i, "S%dY" % i], ["S%dX" % (i // 2)], "3.0")]
        yield "large%d" % n, rx, None


def layer_long():
    """names and rates of every length; coefficients that are zero"""
    full = "".join("C%dH%dOHCO" % (i % 7 + 1, i % 13) for i in range(20))
    for n in range(1, 81):
        for c in ("", "2", "0.35"):
            yield "longname%d%s" % (n, c), [R([(c, full[:n]), ("", full[:n] + "B")], [("", full[:n] + "A"), (c, full[:n] + "B")]), R([full[:n] + "A"], [("0.5", full[:n]), ("", "hv")])]
    for n in list(range(1, 60)) + [100, 300, 1000, 3000]:
        yield "longrate%d" % n, [R(["A"], ["B"], "+".join("%d.5D-%d*EXP(-%d/TEMP)" % (i % 9 + 1, i % 20, i) for i in range(n))), R(["B"], ["A"], "J(4)")]
    for c in ("0", "0.0", ".0", "0.", "00", "0.000"):
        for a in ("X", "B", "A"):
            yield "zero:" + c + a, [R(["A"], [(c, a), ("", "B")]), R(["B", "A"], [("", "A"), (c, a)])]


POOL = ["A", "a", "Aa", "AA", "A1", "A11", "A1A", "CO", "Co", "NO", "N", "O", "O1D", "OH", "HO", "hvX", "Xhv", "HV", "E5", "D5", "E", "e", "EXP", "J", "J4",
        "TEMP", "M", "N2", "O2", "H2O", "RO2", "KMT06", "C2H5O2", "CH3_O2", "NA", "SA", "X10", "X1E5", "IC3H7NO3", "PROD", "DUMMY", "TRUE", "OHX", "HO2", "O3"]


def layer_pairs():
    """any two names together: different case, prefix, suffix, look-alikes of numbers, functions and photons"""
    for a, b in itertools.product(POOL, repeat=2):
        yield "pair:%s,%s" % (a, b), [R([a, b], ["Z", ("0.5", b)]), R(["Z", a], [("2", a), b, "hv"]), R([b], [a])]


def layer_many(limit):
    """any number of terms on either side, distinct, repeated or with coefficients"""
    for n in range(1, limit + 1):
        for m in (0, 1, 2, n):
            lhs, rhs = ["L%d" % i for i in range(n)], ["P%d" % i for i in range(m)]
            yield "many%d-%d" % (n, m), [R(lhs, rhs), R(rhs or ["hv"], lhs)]
            yield "manyrep%d-%d" % (n, m), [R(["L%d" % (i % 2) for i in range(n)], ["P%d" % (i % 3) for i in range(m)])]
            yield "manycoef%d-%d" % (n, m), [R([(COEF[i % len(COEF)], "L%d" % (i % 5)) for i in range(n)], [(COEF[(i * 5 + n) % len(COEF)], "L%d" % (i % 4)) for i in range(m)])]


def layer_count(limit):
    for n in range(1, limit + 1):
        yield "count%d" % n, [R(["S%d" % i], ["S%d" % ((i + 1) % n if n > 1 else 7)], RATES[i % len(RATES)]) for i in range(n)]


def work(ctx, items):
    with core.workdir(ctx.scratch):
        for tag, rxns, style in items:
            ctx.transitions += len(rxns)
            compare(ctx, tag, kpp.text(rxns, style), rxns)


def run(ctx):
    items = []
    for tag, rx in layer_terms():
        items.append((tag, rx, None))
        items.append((tag + "~sp", rx, dict(coefsep=" ")))
    items += [("%s:%s" % (t, rx[0].key()), rx, None) for t, rx in layer_sides()]
    items += [("%s:%s~" % (t, rx[0].key()), rx, dict(sep="", brk="\n")) for t, rx in layer_sides()]
    items += [(t, rx, None) for t, rx in layer_seq(2, CORE)]
    items += [(t, rx, None) for t, rx in layer_seq(3, CORE)]
    items += [(t, rx, s) for t, rx, s in layer_layout()]
    items += [(t, rx, None) for t, rx in layer_count(130)]
    for t, rx in layer_coef():
        items += [(t, rx, None), (t + "~sp", rx, dict(coefsep=" "))]
    items += [(t, rx, st) for t, rx in layer_pairs() for st in (None, dict(sep=""))]
    items += [(t, rx, None) for t, rx in layer_many(60 if ctx.thorough else 30)]
    items += [(t, rx, st) for t, rx in layer_long() for st in (None, dict(brk="\n\t"))]
    items += list(layer_numbers(ctx.thorough))
    items += list(layer_large(ctx.thorough))
    if ctx.thorough:
        items += [(t, rx, None) for t, rx in layer_seq(4, CORE)]
        pair = [R(l, r) for l in SIDE_L for r in SIDE_R]
        items += [("pair%d-%d" % (i, j), [pair[i], pair[j]], None) for i in range(len(pair)) for j in range(0, len(pair), 3)]
    ctx.sample(dict(text=kpp.text(CORE[:3])))
    ctx.extra["bound"] = "sequences of length <= %d over %d reactions; %d layouts; all 1..130 reaction counts" % (
        4 if ctx.thorough else 3, len(CORE), len(styles()))
    core.parallel(ctx, work, items)
    files = ["mechanism_files/MCM_APINENE.eqn.txt", "mechanism_files/MCM_BCARY.eqn.txt"]
    if ctx.thorough:
        files += ["MCM_test.eqn.txt", "mechanism_files/MCM_mixed_test.eqn.txt"]
    with core.workdir(ctx.scratch):
        for rel in files:
            p = os.path.join(core.REPO, rel)
            if not os.path.exists(p):
                continue
            rx = kpp.read(p)
            ctx.count("shipped_reactions", len(rx))
            with open(p) as f:
                compare(ctx, "file:" + os.path.basename(rel), f.read(), rx)
