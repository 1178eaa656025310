"""C15: every compound keeps its own structure and its own properties.

Structure files: every assignment of {own SMILES, no <smiles> element, empty element, not listed} to the species of a
mechanism x every entry order, and sequences of two such readings; fixed-yield files: every sequence of compounds.
Property arrays: every assignment of structures to species x every species order x every cut-off position x methods,
with a stand-in for UManSysProp whose values identify structure and method (mc/umsp.py).
Programs: the aerosol programs themselves, run on these (mc/program.py).
"""
import itertools
import os

import numpy as np

from mc import core, env, kpp, program, umsp

SMI = ["CC(=O)O", "O=CC=O", "OCC(OO)C=C", "C/C=C/C(=O)OO", "O=[N+]([O-])OCC#C", "CC1=CCC2CC1C2(C)C", "CC(C)(O)C1CC1"]
# one formula, five structures (the last two differ in the geometry of the double bond only)
ISOMERS = ["CCCC(=O)O", "CC(C)C(=O)O", "CCOC(C)=O", "OC/C=C/CO", "OC/C=C\\CO"]
NAMES = ["APINENE", "PINAL", "C107OOH", "NO3", "CH3CO3H"]
OX = ["OH", "HO2", "O3", "hv"]
FORMS = ("own", "none", "empty", "absent")
METHODS = list(itertools.product(("nannoolal", "myrdal_and_yalkowsky", "evaporation"), ("joback_and_reid", "stein_and_brown", "nannoolal"),
                                 ("nannoolal", "joback_and_reid"), ("girolami", "schroeder", "le_bas", "tyn_and_calus")))


def xml(entries):
    out = ['<?xml version="1.0" encoding="UTF-8"?>', "<mechanism><species_defs>"]
    for name, form, smi in entries:
        inner = {"own": "<smiles>%s</smiles>" % smi, "none": "", "empty": "<smiles/>"}[form]
        out.append('<species species_number="%d" species_name="%s">%s<inchi>x</inchi></species>' % (len(out), name, inner))
    out.append("</species_defs></mechanism>")
    return "\n".join(out)


def parsed(names):
    return dict(species_dict=dict(enumerate(names)), species_dict2array={n: i for i, n in enumerate(names)}, kept=17)


def structure(ctx, P, names, entries, case, tag):
    """one structure file read"""
    with open("MCM.xml", "w") as f:
        f.write(xml(entries))
    ctx.states += 1
    od = parsed(names)
    try:
        with core.quiet():
            out = P.extract_smiles_species(od, "MCM.xml")
    except Exception:
        ctx.violation("raised:" + tag, core.short_exc(), case)
        return False
    want = {n: s for n, f, s in entries if f == "own" and n in names}
    got = dict(out["SMILES_dict"])
    for n in set(want) | set(got):
        ctx.transitions += 1
        if n in OX:
            ok = n not in got or got[n] == want.get(n)
        else:
            ok = got.get(n) == want.get(n)
        if not ok:
            ctx.violation("smiles:" + tag, "species %s is given the structure %r, the file says %r" % (n, got.get(n), want.get(n)), case)
            return False
    for n, s in got.items():
        mol = out["Pybel_object_dict"].get(s)
        if mol is None or umsp.smiles(mol) != canon(s):
            ctx.violation("pybel:" + tag, "molecule of %s (%s) is %s" % (n, s, mol and umsp.smiles(mol)), case)
            return False
    for s, mol in out["Pybel_object_dict"].items():
        if umsp.smiles(mol) != canon(s):
            ctx.violation("pybel:" + tag, "molecule filed under %s is %s" % (s, umsp.smiles(mol)), case)
            return False
    if out["species_dict"] != parsed(names)["species_dict"] or out["species_dict2array"] != parsed(names)["species_dict2array"]:
        ctx.violation("index:" + tag, "the species indices were altered", case)
        return False
    ctx.outcome(("xml", len(want), len(got)))
    return True


_canon = {}


def canon(s):
    if s not in _canon:
        import pybel
        _canon[s] = umsp.smiles(pybel.readstring("smi", s))
    return _canon[s]


# names that contain, extend or resemble one another; structures of every notation
ALIKE = ["C107", "C107O", "C107O2", "C107OOH", "MC107", "C107 ".strip() + "B", "c107", "OHC107", "HO2C107", "O3X", "XOH", "NO", "NO2", "NO3", "N2O5", "APIN", "APINENE", "APINENEO2", "BAPINENE"]
FANCY = ["C[O]", "CO[O]", "CC(=O)O[O]", "[CH2]C=C", "C[C@H](O)C(=O)O", "C[C@@H](O)C(=O)O", "F/C=C/F", "F/C=C\\F", "c1ccccc1O", "Cc1ccc(cc1)[N+](=O)[O-]", "C%12CCCCC%12", "OCC#N",
         "C1CC1", "[13CH3]O", "CSC", "CCl", "CBr", "C(F)(F)Cl", "CC(C)(C)OO", "C" * 130 + "O"]

LARGE = ["C", "C" * 60 + "O", "C" * 45, "OC(=O)C(=O)O", "OOC(OO)(OO)OO", "OCC(O)" * 8 + "C(=O)O", "C(C(F)(F)F)(Cl)Br"]


def alike(ctx, P, item, case, tag):
    """two similar names, one or both listed, in both orders of the file and of the mechanism"""
    a, b, both, flip, swap = item
    names = [ALIKE[a], ALIKE[b]]
    e = [(names[0], "own", SMI[a % 7])] + ([(names[1], "own", SMI[(a % 7 + 1 + b % 6) % 7])] if both else [])
    structure(ctx, P, names[::-1] if flip else names, e[::-1] if swap else e, case, tag)


def shared(ctx, P, seq, case, tag):
    """isomers that carry one SMILES"""
    structure(ctx, P, NAMES[:len(seq)], [(NAMES[i], "own", SMI[s]) for i, s in enumerate(seq)], case, tag)


def number(i, s, sep):
    v = 0.31 - 0.07 * i + 0.01 * s
    return {" ": "%.5f" % v, "\t": "%.4E" % (v * 1e-3), "   ": "%d" % (1 + 3 * i + s), "\t ": "%.3e" % (v * 1e4), "  ": (".%03d" % (1000 * v))}[sep]


def yields(ctx, P, seq, case, tag):
    with open("y.txt", "w") as f:
        for i, (s, sep) in enumerate(seq):
            f.write("%s%s%s\n" % (SMI[s], sep, number(i, s, sep)))
    ctx.states += 1
    try:
        with core.quiet():
            o = P.extract_species("y.txt")
    except Exception:
        ctx.violation("raised:" + tag, core.short_exc(), case)
        return
    want = {SMI[s]: float(number(i, s, sep)) for i, (s, sep) in enumerate(seq)}
    n = len(seq)
    s2a, sd = dict(o["species_dict2array"]), dict(o["species_dict"])
    ctx.transitions += n
    msg = None
    if o["species_number"] != n or sorted(s2a.values()) != list(range(n)) or set(s2a) != set(want):
        msg = "index %s for compounds %s" % (s2a, sorted(want))
    elif {v: k for k, v in sd.items()} != s2a:
        msg = "index %s and names %s disagree" % (s2a, sd)
    elif dict(o["SMILES_dict"]) != {s: s for s in want}:
        msg = "structures %s" % dict(o["SMILES_dict"])
    else:
        for s, i in s2a.items():
            mol = o["Pybel_object_dict"].get(s)
            if mol is None or umsp.smiles(mol) != canon(s):
                msg = "molecule of %s is %s" % (s, mol and umsp.smiles(mol))
            elif abs(o["concentration_dict"][mol] - want[s]) > 1e-9:
                msg = "concentration of %s is %r, the file says %r" % (s, o["concentration_dict"][mol], want[s])
            elif o["smiles_array"][i] != s or abs(o["concentration_array"][i] - want[s]) > 1e-9:
                msg = "entry %d of the arrays is (%s, %r), should be (%s, %r)" % (i, o["smiles_array"][i], o["concentration_array"][i], s, want[s])
    if msg:
        ctx.violation("yield:" + tag, msg, case)
    ctx.outcome(("yield", n))


def shaped(ctx, r, names, n, case, tag):
    """every array is there, with one entry per compound"""
    for k in names:
        try:
            ok = len(r[k]) == n and all(np.ndim(x) == 0 for x in r[k])
        except Exception:
            ok = False
        if not ok:
            ctx.violation("len:" + tag, "%s is not an array with one entry for each of %d compounds" % (k, n), case)
            return False
    for k in ("include_index", "ignore_index") if names is PURE1 else ():
        if not hasattr(r.get(k), "__len__"):
            ctx.violation("len:" + tag, "no list %s" % k, case)
            return False
    return True


PURE1 = ("sat_vp", "y_density_array", "y_mw", "o_c", "h_c", "Delta_H", "Latent_heat_gas", "ignore_index_fortran")
PURE2 = ("alpha_d_org", "DStar_org", "mean_them_vel", "gamma_gas")


def pure(ctx, Q, item, case, tag, pool=SMI):
    """Pure_component1 on one assignment"""
    import pybel
    _, order, assign, cut, meth, ignore, temp = item
    names = [NAMES[i] for i in order]
    n = len(names)
    s2a = {names[i]: i for i in range(n)}
    sd = {i: names[i] for i in range(n)}
    if cut is not None and cut < 0:       # the index map stored in another order than the names
        sd = {i: names[i] for i in reversed(range(n))}
        cut = -cut - 1
    smi = {NAMES[i]: pool[a] for i, a in assign}
    mols = {s: pybel.readstring("smi", s) for s in smi.values()}
    vps = sorted({umsp.expected(mols[s], temp, *meth)[0] for s in smi.values()})
    # cut-offs: below everything, exactly at each value, above everything
    c = ([-99.0] + vps + [99.0])[cut if cut is not None and cut < len(vps) + 2 else -1]
    ctx.states += 1
    try:
        with core.quiet():
            r = Q.Pure_component1(n, sd, s2a, dict(mols), dict(smi), temp, meth[0], meth[1], meth[2], meth[3], ignore, c)
    except Exception:
        ctx.violation("raised:" + tag, core.short_exc(), case)
        return
    if not shaped(ctx, r, PURE1, n, case, tag):
        return
    inc = []
    for nm, i in s2a.items():
        ctx.transitions += 1
        if nm not in smi:
            continue
        m = mols[smi[nm]]
        v, d = umsp.expected(m, temp, *meth)
        comp = umsp.composition(m)
        if not ignore or v <= c:
            inc.append(i)
        for what, got, want in (("sat_vp", r["sat_vp"][i], [v]), ("y_density_array", r["y_density_array"][i], d), ("y_mw", r["y_mw"][i], [m.molwt]),
                                ("o_c", r["o_c"][i], [comp["O"] / comp["C"]]), ("h_c", r["h_c"][i], [comp["H"] / comp["C"]])):
            if not any(abs(float(got) - w) <= 1e-9 * max(1.0, abs(w)) for w in want):
                ctx.violation("%s:%s" % (what, tag), "%s of %s (%s) is %r, its own structure gives %r" % (what, nm, smi[nm], float(got), want), case)
                return
    for k in ("sat_vp", "y_density_array", "y_mw", "Delta_H", "Latent_heat_gas"):
        if len(r[k]) != n:
            ctx.violation("len:" + tag, "%s has %d entries for %d species" % (k, len(r[k]), n), case)
            return
    exc = [i for i in range(n) if i not in inc]
    if sorted(int(x) for x in r["include_index"]) != sorted(inc):
        ctx.violation("include:" + tag, "compounds taking part: %s, the cut-off %r lets %s through" % (sorted(r["include_index"]), c, sorted(inc)), case)
    elif sorted(int(x) for x in r["ignore_index"]) != exc:
        ctx.violation("ignore:" + tag, "compounds ignored: %s, should be %s" % (sorted(r["ignore_index"]), exc), case)
    elif [float(x) for x in r["ignore_index_fortran"]] != [1.0 if i in exc else 0.0 for i in range(n)]:
        ctx.violation("mask:" + tag, "mask %s, ignored compounds are %s" % (list(r["ignore_index_fortran"]), exc), case)
    ctx.outcome(("pure", n, len(inc), len(smi)))


def pure2(ctx, Q, mw, T, case, tag):
    ctx.states += 1
    try:
        r = Q.Pure_component2(len(mw), list(mw), 8.3144598, T)
    except Exception:
        ctx.violation("raised:" + tag, core.short_exc(), case)
        return
    if not shaped(ctx, r, PURE2, len(mw), case, tag):
        return
    for i, m in enumerate(mw):
        ctx.transitions += 1
        d = 1.9 * m ** (-2.0 / 3.0)
        v = (8.0 * 8.3144598 * T / (np.pi * m * 1e-3)) ** 0.5
        for k, w in (("alpha_d_org", 0.1), ("DStar_org", d), ("mean_them_vel", v), ("gamma_gas", 3.0 * d / (v * 1e2) * 1e-2)):
            if len(r[k]) != len(mw) or abs(float(r[k][i]) - w) > 1e-9 * w:
                ctx.violation("%s:%s" % (k, tag), "%s[%d] = %r for a molar mass of %r at %r K, should be %r" % (k, i, r[k][i], m, T, w), case)
                return


def chain(i):
    """a structure of its own for every i"""
    s = "C"
    i += 1
    while i:
        s += ("C", "C(O)", "C(=O)", "C(C)", "C(OO)")[i % 5]
        i //= 5
    return s + "O"


def wide_xml(ctx, P, n, every, case, tag):
    """a mechanism of n species; every so many of them listed, last first, among unrelated entries"""
    names = ["S%dX" % i for i in range(n)]
    listed = [i for i in range(n) if i % every == every - 1 or i in (0, n - 1)]
    e = [(names[i], "own", chain(i)) for i in reversed(listed)]
    e = [x for i, x in enumerate(e) for x in ([x] if i % 50 else [x, ("UNREL%d" % i, "own", chain(n + i))])]
    structure(ctx, P, names, e, case, tag)


def wide_yield(ctx, P, n, case, tag):
    with open("y.txt", "w") as f:
        for i in range(n):
            f.write("%s %.5f\n" % (chain(i), 0.001 + 0.0003 * i))
    ctx.states += 1
    try:
        with core.quiet():
            o = P.extract_species("y.txt")
    except Exception:
        ctx.violation("raised:" + tag, core.short_exc(), case)
        return
    s2a = dict(o["species_dict2array"])
    ctx.transitions += n
    if o["species_number"] != n or len(s2a) != n or sorted(s2a.values()) != list(range(n)):
        ctx.violation("yield:" + tag, "%s compounds indexed of %d" % (len(s2a), n), case)
        return
    for i in range(n):
        s, w = chain(i), round(0.001 + 0.0003 * i, 5)
        k = s2a.get(s)
        mol = o["Pybel_object_dict"].get(s)
        if k is None or o["smiles_array"][k] != s or abs(o["concentration_array"][k] - w) > 1e-9 or umsp.smiles(mol) != canon(s) \
                or abs(o["concentration_dict"][mol] - w) > 1e-9 or o["species_dict"][k] != s:
            ctx.violation("yield:" + tag, "compound %d of the file (%s, %r) has entry %s: (%s, %s)" % (
                i, s, w, k, k is not None and o["smiles_array"][k], k is not None and o["concentration_array"][k]), case)
            return
    ctx.outcome(("wide yield", n))


def wide_pure(ctx, Q, n, every, cut, case, tag):
    """property arrays of n species, one in so many without a structure, the indices running against the names"""
    import pybel
    names = ["S%dX" % i for i in range(n)]
    s2a = {names[i]: n - 1 - i for i in range(n)}
    sd = {v: k for k, v in s2a.items()}
    smi = {names[i]: chain(i) for i in range(n) if i % every != 1}
    mols = {s: pybel.readstring("smi", s) for s in smi.values()}
    meth = ("nannoolal", "joback_and_reid", "nannoolal", "girolami")
    exp = {s: umsp.expected(m, 300.0, *meth) for s, m in mols.items()}
    vps = sorted(v for v, _ in exp.values())
    c = vps[len(vps) // 2] if cut else 99.0
    ctx.states += 1
    try:
        with core.quiet():
            r = Q.Pure_component1(n, sd, s2a, dict(mols), dict(smi), 300.0, meth[0], meth[1], meth[2], meth[3], cut, c)
    except Exception:
        ctx.violation("raised:" + tag, core.short_exc(), case)
        return
    if not shaped(ctx, r, PURE1, n, case, tag):
        return
    inc = sorted(s2a[k] for k, s in smi.items() if not cut or exp[s][0] <= c)
    for k, s in smi.items():
        ctx.transitions += 1
        i = s2a[k]
        v, d = exp[s]
        comp = umsp.composition(mols[s])
        for what, got, want in (("sat_vp", r["sat_vp"][i], [v]), ("y_density_array", r["y_density_array"][i], d), ("y_mw", r["y_mw"][i], [mols[s].molwt]),
                                ("o_c", r["o_c"][i], [comp["O"] / comp["C"]]), ("h_c", r["h_c"][i], [comp["H"] / comp["C"]])):
            if not any(abs(float(got) - w) <= 1e-9 * max(1.0, abs(w)) for w in want):
                ctx.violation("%s:%s" % (what, tag), "%s of %s (%s) is %r, its own structure gives %r" % (what, k, s, float(got), want), case)
                return
    if sorted(int(x) for x in r["include_index"]) != inc or sorted(int(x) for x in r["ignore_index"]) != sorted(set(range(n)) - set(inc)):
        ctx.violation("include:" + tag, "%d of %d compounds take part, should be %d" % (len(r["include_index"]), n, len(inc)), case)
    elif [float(x) for x in r["ignore_index_fortran"]] != [0.0 if i in set(inc) else 1.0 for i in range(n)]:
        ctx.violation("mask:" + tag, "the mask disagrees with the compounds taking part", case)
    ctx.outcome(("wide pure", n, len(inc)))


def tasks(ctx):
    out = []
    th = ctx.thorough
    for n, every in ((9, 2), (70, 3), (300, 1), (1100, 7), (2300, 11), (5100, 6)) + (((12000, 5),) if th else ()):
        out.append(("wide", "xml", n, every))
    for n in (5, 11, 70, 260, 1030) + ((5000,) if th else ()):
        out.append(("wide", "yield", n))
    for n, every in ((12, 3), (70, 5), (270, 4), (1100, 9)) + (((5000, 9),) if th else ()):
        for cut in (True, False):
            out.append(("wide", "pure", n, every, cut))
    # structure files
    for k in (1, 2, 3):
        for forms in itertools.product(FORMS, repeat=k):
            listed = [i for i in range(k) if forms[i] != "absent"]
            for perm in itertools.permutations(listed):
                for extra in (0, 1, 2):
                    out.append(("xml", k, forms, perm, extra))
    if th:
        for forms in itertools.product(FORMS, repeat=4):
            listed = [i for i in range(4) if forms[i] != "absent"]
            for perm in itertools.permutations(listed):
                out.append(("xml", 4, forms, perm, 1))
    for a, b in itertools.permutations(range(len(ALIKE)), 2):
        for both, flip, swap in itertools.product((0, 1), repeat=3):
            if both or not swap:
                out.append(("alike", a, b, both, flip, swap))
    for k in (2, 3):
        for seq in itertools.product(range(3), repeat=k):
            out.append(("shared", seq))
    for i in range(len(FANCY)):
        for k in (0, 1, 2):
            out.append(("fancy", i, k))
    for a in itertools.product(FORMS, repeat=2):
        for b in itertools.product(FORMS, repeat=2):
            out.append(("xml2", a, b))
    # fixed-yield files
    for k in (1, 2, 3, 4) if th else (1, 2, 3):
        for s in itertools.permutations(range(5), k):
            for sep in (" ", "\t", "   ", "\t ", "  "):
                out.append(("yield", tuple((x, sep) for x in s)))
    # property arrays
    T = (288.15, 310.0)
    base = ("nannoolal", "joback_and_reid", "nannoolal", "girolami")
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        for order in itertools.permutations(range(n)):
            for present in itertools.product((0, 1), repeat=n):
                sets = [tuple((i, i) for i in range(n) if present[i])]
                sets += [tuple((i, (i + 1) % n) for i in range(n) if present[i])]
                if n > 1:
                    sets.append(tuple((i, 0) for i in range(n) if present[i]))      # isomers sharing a structure
                for assign in sets:
                    k = len({a for _, a in assign})
                    for cut in range(k + 2):
                        for c in (cut, -cut - 1):
                            out.append(("pure", order, assign, c, base, True, T[0]))
                    out.append(("pure", order, assign, None, base, False, T[0]))
    for m in METHODS:
        for t in T:
            for cut in range(5):
                out.append(("pure", (2, 0, 1), ((0, 0), (1, 1), (2, 2)), cut, m, True, t))
            out.append(("pure", (2, 0, 1, 3), ((0, 0), (2, 5), (3, 4)), None, m, False, t))
    # isomers, some of whose properties coincide
    for k in range(len(umsp.FIELDS) + 1):
        for same in itertools.combinations(umsp.FIELDS, k):
            for m in METHODS if th else METHODS[::5] + METHODS[:4]:
                for cut in (1, 3):
                    out.append(("isomers", same, ((4, 1, 0, 3, 2), tuple((i, (i * 2 + cut) % 5) for i in range(5)), cut, m, True, T[cut // 2])))
    # structures at the ends of what the groups allow: no oxygen at all, more oxygen than carbon, very large
    for assign in itertools.permutations(range(len(LARGE)), 3):
        for cut in (None, 0, 1, 2):
            for t in (200.0, 288.15, 340.0):
                out.append(("large", (1, 2, 0), tuple(enumerate(assign)), cut, base, cut is not None, t))
    mws = (2.016, 18.0, 46.03, 136.24, 200.0, 312.5, 745.3, 2810.0)
    for k in (1, 2, 3):
        for mw in itertools.product(mws, repeat=k):
            for t in (200.0, 250.0, 288.15, 310.0, 340.0):
                out.append(("pure2", mw, t))
    # the aerosol programs: every subset of listed structures x cut-off on and off
    from checks import progs
    for m in ("MCM_APINENE", "MECH_D") if not th else ("MCM_APINENE", "MECH_B", "MECH_D"):
        names = sorted(n for n in progs.SMILES if n in kpp.species_of(progs.MECHS[m]))
        for k in range(len(names) + 1):
            for sub in itertools.combinations(names, k):
                for kw in (dict(cut=-6.0), dict(cut=-9.0), dict(cut=-99.0), dict(ignore_vp=False)) if th else (dict(cut=-8.0), dict(ignore_vp=False)):
                    out.append(("prog", "coupled", m, kw, sub))
    for m in progs.YIELDS:
        for kw in (dict(), dict(ignore_vp=True, cut=-4.0), dict(ignore_vp=True, cut=-6.0), dict(ignore_vp=True, cut=-8.0), dict(ignore_vp=True, cut=-10.0),
                   dict(ignore_vp=True, cut=-99.0)):
            out.append(("prog", "fixed", m, kw, ()))
    return out


def entries(k, forms, perm, extra, salt=0):
    e = [(NAMES[i], forms[i], SMI[(i + salt) % len(SMI)]) for i in perm]
    if extra:
        e.insert(len(e) // 2, ("UNRELATED", "own", SMI[6]))
        e.insert(0, ("UNREL2", "none", ""))
    if extra == 2:
        e.insert(1, ("OH", "own", "[OH]"))
        e.append(("O3", "own", "O=[O+][O-]"))
        e.append(("HO2", "none", ""))
    return e


def one(ctx, P, Q, item):
    kind = item[0]
    tag = "_".join(str(x) for x in item)
    case = dict(kind=kind, item=[str(x) for x in item])
    if kind == "wide":
        ctx.traces += 1
        if item[1] == "xml":
            wide_xml(ctx, P, item[2], item[3], case, tag)
        elif item[1] == "yield":
            wide_yield(ctx, P, item[2], case, tag)
        else:
            wide_pure(ctx, Q, item[2], item[3], item[4], case, tag)
    elif kind == "xml":
        _, k, forms, perm, extra = item
        names = NAMES[:k] + (OX[:3] if extra == 2 else [])
        structure(ctx, P, names, entries(k, forms, perm, extra), case, tag)
        ctx.traces += 1
    elif kind == "alike":
        ctx.traces += 1
        alike(ctx, P, item[1:], case, tag)
    elif kind == "shared":
        ctx.traces += 1
        shared(ctx, P, item[1], case, tag)
    elif kind == "fancy":
        ctx.traces += 1
        _, i, k = item
        near = [(NAMES[1], "own", SMI[1]), (NAMES[2], "own", FANCY[(i + 7) % len(FANCY)])][:k]
        structure(ctx, P, NAMES[:3], near[:1] + [(NAMES[0], "own", FANCY[i])] + near[1:], case, tag)
    elif kind == "xml2":
        a, b = item[1:]
        for forms, salt in ((a, 0), (b, 1)):
            perm = [i for i in range(2) if forms[i] != "absent"]
            structure(ctx, P, NAMES[:2], entries(2, forms, perm, 0, salt), case, tag)
        ctx.traces += 1
    elif kind == "yield":
        yields(ctx, P, item[1], case, tag)
        ctx.traces += 1
    elif kind == "pure":
        pure(ctx, Q, item, case, tag)
        ctx.traces += 1
    elif kind == "isomers":
        umsp.coarse.update(item[1])
        try:
            pure(ctx, Q, ("pure",) + item[2], case, tag, ISOMERS)
        finally:
            umsp.coarse.clear()
        ctx.traces += 1
    elif kind == "large":
        pure(ctx, Q, ("pure",) + item[1:], case, tag, LARGE)
        ctx.traces += 1
    elif kind == "prog":
        from checks import c13, progs
        c13.program_run(ctx, item[:4], {n: (s if n in item[4] else None) for n, s in progs.SMILES.items()})
    elif kind == "pure2":
        pure2(ctx, Q, item[1], item[2], case, tag)


def work(ctx, items):
    program.warm()
    umsp.install()
    P = env.parse_mod()
    Q = env.module("Aerosol/Property_calculation.py")
    from openbabel import openbabel
    openbabel.obErrorLog.SetOutputLevel(0)
    with core.workdir(ctx.scratch):
        for it in items:
            one(ctx, P, Q, it)


def run(ctx):
    ts = tasks(ctx)
    ctx.sample(dict(tasks=len(ts), first=[str(t) for t in ts[:3]]))
    core.parallel(ctx, work, ts)
