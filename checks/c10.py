"""C10: what a simulation uses always belongs to the mechanism that was asked for.

Generators: every sequence (to a depth) of parse / convert / write steps over two mechanisms in one process and one
directory; each step must leave exactly the files a fresh start leaves, and the parsed mechanism as it was.
Programs: every sequence (to a depth) of {fresh run, run with the reuse option, edit of the mechanism file} over two
mechanisms, each run a fresh process in the same directory (mc/program.py), for all four programs; the solver must be
handed the mechanism asked for, or - where nothing usable was left for it - the run must fail.
"""
import copy
import itertools
import os
import shutil

import numpy as np

from checks import progs
from mc import backends, core, env, kpp, program

# ------------------------------------------------------------------ generator histories
OPS = ("rates_n", "rates_f", "rates_p", "reac_n", "lg_n", "jac_n", "reac_f", "lg_f", "lg_fo", "jac_f", "ro2")
GM = ("MCM_APINENE", "MCM_APINENE_D")     # one name begins with the other
# a mechanism file edited under its name: other coefficients and rates of the same shape; other participants of the
# same shape; one reaction fewer; another mechanism altogether
VERSIONS = {"MCM_APINENE": ("", "@coef", "@who", "@less", "@other"), "MCM_APINENE_D": ("", "@coef", "@order")}
GMECHS = dict(progs.MECHS, MCM_APINENE_D=progs.MECHS["MECH_D"])


def base_of(m):
    return m.partition("@")[0]


def variant(m):
    name, _, v = m.partition("@")
    rx = GMECHS[name]
    R = kpp.Rxn
    if v == "coef":
        return [R([(c, n) for c, n in r.lhs], [("0.7" if n != "hv" else c, n) if i % 2 else (c, n) for i, (c, n) in enumerate(r.rhs)],
                  r.rate.replace("D-1", "D-2") if k % 2 else r.rate) for k, r in enumerate(rx)]
    if v == "who":
        sw = {"APINENE": "O3", "O3": "APINENE", "PINONIC": "HCHO", "HCHO": "PINONIC", "CH3O2": "C2H5O2", "C2H5O2": "CH3O2"}
        return [R([(c, sw.get(n, n)) for c, n in r.lhs], [(c, sw.get(n, n)) for c, n in r.rhs], r.rate) for r in rx]
    if v == "less":
        return rx[:-3]
    if v == "order":
        return progs.MECHS["MECH_B"]
    if v == "other":
        return progs.MECHS["MECH_B"]
    return rx
FILES = {"rates_n": ["Rate_coefficients_numba.py"], "rates_f": ["Rate_coefficients.f90"], "rates_p": ["Rate_coefficients.py"],
         "reac_n": ["Reactants_conc_numba.py", "@_reactant_indices.npy", "@_reactants_stoich_indices.npy", "reactants_indices_sparse_@.npz"],
         "lg_n": ["Loss_Gain_numba.py", "loss_gain_@.npz"], "jac_n": ["Jacobian_numba.py"], "reac_f": ["Reactants_conc.f90"],
         "lg_f": ["Loss_Gain.f90"], "lg_fo": ["Loss_Gain.f90"], "jac_f": ["Jacobian.f90"], "ro2": ["@_RO2_indices.npy"]}


def content(path):
    if not os.path.exists(path):
        return None
    if path.endswith(".npy"):
        a = np.load(path, allow_pickle=True)
        return ("npy", a.shape, repr(a.tolist()))
    if path.endswith(".npz"):
        with np.load(path, allow_pickle=True) as z:
            return ("npz",) + tuple((k, z[k].shape, repr(z[k].tolist())) for k in sorted(z.files))
    with open(path) as f:
        ls = [x.strip() for x in f.read().split("\n")]
    c = "!" if path.endswith(".f90") else "#"
    return ("txt",) + tuple(x for x in ls if x and not (x.startswith(c) and not x.lower().startswith("!$omp")))


def parse(name):
    return backends.parse(kpp.text(variant(name)), base_of(name) + ".eqn.txt")


def step(op, name, od):
    name = base_of(name)
    P, C = env.parse_mod(), env.conv_mod()
    u = backends.unpack(od)
    with core.quiet():
        if op == "rates_n":
            P.write_rate_file_numba(name, C.convert_rate_mcm_numba(u["rate"]))
        elif op == "rates_f":
            P.write_rate_file_fortran(name, C.convert_rate_mcm_fortran(u["rate"]), False)
        elif op == "rates_p":
            P.write_rate_file(name, C.convert_rate_mcm(u["rate"]))
        elif op == "reac_n":
            P.write_reactants_indices(name, u["neq"], u["ns"], u["s2a"], u["reac"], u["loss"])
        elif op == "lg_n":
            P.write_loss_gain_matrix(name, u["neq"], u["ns"], u["loss"], u["gain"], u["s2a"])
        elif op == "jac_n":
            P.write_gas_jacobian_numba(name, u["neq"], u["ns"], u["loss"], u["gain"], u["s2a"], u["reac"])
        elif op == "reac_f":
            P.write_reactants_indices_fortran(name, u["neq"], u["s2a"], u["reac"], u["loss"], False)
        elif op in ("lg_f", "lg_fo"):
            P.write_loss_gain_fortran(name, u["neq"], u["ns"], u["loss"], u["gain"], u["s2a"], op == "lg_fo")
        elif op == "jac_f":
            P.write_gas_jacobian_fortran(name, u["neq"], u["ns"], u["loss"], u["gain"], u["s2a"], u["reac"], False)
        elif op == "ro2":
            P.write_RO2_indices(name, u["s2a"])
    return {f.replace("@", name): content(f.replace("@", name)) for f in FILES[op]}


def meaning(od):
    return dict(rate={k: "".join(str(v).split()) for k, v in od["rate_dict"].items()}, loss=backends.nested(od["loss_dict"]), gain=backends.nested(od["gain_dict"]),
                stoich=backends.nested(od["stoich_dict"]), reac=backends.nested(od["rate_dict_reactants"]), s2a=dict(od["species_dict2array"]),
                sd=dict(od["species_dict"]), n=od["max_equations"])


def clean():
    for f in os.listdir("."):
        os.remove(f)


def generators(ctx, base, seq):
    """one history; every event is (op, mechanism) or ("parse", mechanism)"""
    clean()
    tag = "_".join("%s.%s" % (o, base_of(m)[-1] + m[len(base_of(m)):]) for o, m in seq)
    case = dict(history=[list(e) for e in seq])
    ctx.states += 1
    ctx.traces += 1
    ods, own, owner = {}, {}, {}
    for i, (op, m) in enumerate(seq):
        ctx.transitions += 1
        try:
            if op == "parse" or m not in ods:
                ods[m] = parse(m)
            if op != "parse":
                got = step(op, m, ods[m])
                name = base_of(m)
                others = {f: v for f, v in own.items() if owner[f] != name and content(f) != v}
                if others:
                    f = sorted(others)[0]
                    ctx.violation("foreign:" + tag, "step %d (%s of %s) altered %s of another mechanism" % (i, op, m, f), case)
                    return
                for f in FILES[op]:
                    if "@" in f:
                        f = f.replace("@", name)
                        own[f], owner[f] = got[f], name
        except Exception:
            ctx.violation("raised:" + tag, "step %d (%s of %s): %s" % (i, op, m, core.short_exc()), case)
            return
        if op != "parse" and got != base[m][op]:
            f = [k for k in got if got[k] != base[m][op][k]][0]
            ctx.violation("differs:" + tag, "step %d (%s of %s) writes %s unlike a fresh start: %s" % (i, op, m, f, first(got[f], base[m][op][f])), case)
            return
    for m, od in ods.items():
        a, b = meaning(od), base[m]["parsed"]
        if a != b:      # does any later generator see it?
            k = [x for x in a if a[x] != b[x]][0]
            for op in OPS:
                try:
                    got = step(op, m, copy.deepcopy(od))
                except Exception:
                    got = core.short_exc()
                if got != base[m][op]:
                    ctx.violation("mutated:" + tag, "the history altered the parsed %s of %s (%s), and %s sees it" % (k, m, first(a[k], b[k]), op), case)
                    return


def first(a, b):
    if type(a) is tuple and type(b) is tuple:
        for x, y in zip(a, b):
            if x != y:
                return "%r / %r" % (str(x)[:120], str(y)[:120])
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(b) + list(a):
            if a.get(k) != b.get(k):
                return "%r: %r / %r" % (k, str(a.get(k))[:120], str(b.get(k))[:120])
    return "%s / %s" % (str(a)[:120], str(b)[:120])


def baseline():
    base = {}
    for m in [n + v for n in GM for v in VERSIONS[n]]:
        base[m] = {}
        for op in OPS:
            clean()
            base[m][op] = step(op, m, parse(m))
            if None in base[m][op].values():
                base[m][op] = {k: v for k, v in base[m][op].items()}
        base[m]["parsed"] = meaning(parse(m))
    return base


def histories(thorough):
    ev = [(o, m) for m in GM for o in OPS]
    out = [(e,) for e in ev] + [p for p in itertools.product(ev, repeat=2)]
    out += [(a, ("parse", b), c) for a in ev for b in GM for c in ev]
    # the mechanism file edited between the steps: every pair of versions x every pair of steps, there and back, and
    # everything generated from one version and then from another
    for n in GM:
        vs = [n + v for v in VERSIONS[n]]
        for a, b in itertools.permutations(vs, 2):
            for o, p in itertools.product(OPS, repeat=2):
                out.append(((o, a), (p, b)))
                out.append(((o, a), (o, b), (p, b)) if o != p else ((o, a), (o, b), (o, a)))
            out.append(tuple((o, x) for x in (a, b, a) for o in OPS))
            out.append(tuple((o, x) for o in OPS for x in (a, b)))
            out.append((("parse", a), ("parse", b)) + tuple((o, x) for x in (b, a) for o in OPS))
        if thorough:
            for c in itertools.permutations(vs, 3):
                for o in itertools.product(OPS, repeat=3):
                    out.append(tuple(zip(o, c)))
    if thorough:
        out += list(itertools.product(ev, repeat=3))
    else:
        out += list(itertools.product([(o, GM[0]) for o in OPS], repeat=3))
    return out


# ------------------------------------------------------------------ program histories
SLOTS = {"A": ("MCM_APINENE", "MECH_D"), "B": ("MECH_B", "MECH_C")}     # two mechanism files, two contents each
YSLOT = {"A": ("MCM_yield", "YIELD_B"), "B": ("YIELD_B", "MCM_yield")}
FNAME = {"A": "slot", "B": "slot_2"}      # one name begins with the other
EVENTS = ("FA", "FB", "RA", "RB", "EA")


def put(top, which, slot, content_name):
    if which == "fixed":
        with open(os.path.join(top, "Aerosol/f2py/Fixed_yield", FNAME[slot] + ".txt"), "w") as f:
            f.write(progs.yields()[content_name])
    else:
        program.mechanism(top, FNAME[slot], kpp.text(progs.MECHS[content_name]))


def run_slot(top, which, slot, content_name, reuse, cache):
    if which in ("numba", "f2py"):
        return gas(top, which, slot, content_name, reuse, cache)
    if which == "coupled":
        return progs.coupled_run(top, content_name, cache, progs.SMILES, reuse=reuse, fname=FNAME[slot])
    return progs.fixed_run(top, content_name, cache, reuse=reuse, fname=FNAME[slot])


def gas(top, which, slot, content_name, reuse, cache):
    return progs.gas_run(top, which, content_name, cache, reuse=reuse, fname=FNAME[slot])


def walk(ctx, which, top, cache, hist, files, written, last, depth, hist_filter):
    """depth-first over histories; the directory is put back before each branch"""
    for ev in EVENTS:
        h = hist + (ev,)
        if hist_filter and h[:len(hist_filter)] != hist_filter[:len(h)]:
            continue
        if len(h) == 2 and not hist_filter:
            pass
        slot = ev[1]
        f2, w2, l2 = dict(files), dict(written), last
        keep = top + ".keep%d" % len(h)
        shutil.copytree(top, keep, symlinks=True)
        ok = True
        try:
            if ev[0] == "E":
                v = 1 - files[slot]
                f2[slot] = v
                put(top, which, slot, slots(which)[slot][v])
            else:
                ok = event(ctx, which, top, cache, h, ev[0] == "R", slot, f2, w2, l2, count=not hist_filter or len(h) >= len(hist_filter))
                if ev[0] == "F":
                    w2[slot] = f2[slot]
                    l2 = slot
            if ok and depth > 1:
                walk(ctx, which, top, cache, h, f2, w2, l2, depth - 1, hist_filter)
        finally:
            shutil.rmtree(top)
            os.rename(keep, top)


def slots(which):
    return YSLOT if which == "fixed" else SLOTS


def event(ctx, which, top, cache, h, reuse, slot, files, written, last, count):
    version = written.get(slot) if reuse else files[slot]
    name = slots(which)[slot][files[slot] if version is None else version]
    must = not reuse or (last == slot)
    v, out, lost = run_slot(top, which, slot, name, reuse, cache)
    if lost:
        return False
    tag = "%s:%s" % (which, "-".join(h))
    case = dict(program=which, history=list(h), note="F fresh run, R run with reuse, E mechanism file replaced; A/B two mechanisms")
    if count:
        ctx.states += 1
        ctx.traces += 1
        ctx.transitions += len(out["batches"])
        ctx.outcome((which, reuse, must, v is None, out.get("missing", False)))
    if v is None:
        return True
    if not must and v[0] == "raised" and not out["batches"]:
        return True         # nothing usable was left for this mechanism, and the run says so
    if count:
        ctx.violation("%s:%s" % (v[0], tag), "%s run of mechanism %s after %s: %s" % ("reusing" if reuse else "fresh", name, "-".join(h[:-1]) or "nothing", v[1]), case)
    return False


def tasks(ctx):
    depth = 4 if ctx.thorough else 3
    out = []
    for which in ("f2py", "coupled", "fixed", "numba"):
        for a in EVENTS:
            for b in EVENTS:
                out.append(("prog", which, depth, (a, b)))
    hs = histories(ctx.thorough)
    n = 48
    for i in range(n):
        out.append(("gen", hs[i::n]))
    return out


def one(ctx, it):
    if it[0] == "gen":
        base = baseline()
        for s in it[1]:
            generators(ctx, base, s)
        return
    _, which, depth, prefix = it
    cwd = os.getcwd()
    d = os.path.join(cwd, "h")
    os.makedirs(d)
    try:
        top = program.tree(d, {}, progs.xml(progs.SMILES))
        cache = os.path.join(d, "cache")
        os.makedirs(cache)
        for s in "AB":
            put(top, which, s, slots(which)[s][0])
        # events of the prefix's first level are judged by the first task of that level only
        walk(ctx, which, top, cache, (), dict(A=0, B=0), {}, None, depth, prefix)
        if prefix[1] == EVENTS[0]:
            walk(ctx, which, top, cache, (), dict(A=0, B=0), {}, None, 1, prefix[:1])
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def work(ctx, items):
    program.warm()
    with core.workdir(ctx.scratch):
        for it in items:
            with core.workdir(os.getcwd()):
                one(ctx, it)


def run(ctx):
    ts = tasks(ctx)
    ctx.sample(dict(tasks=len(ts), generator_histories=len(histories(ctx.thorough)), first=[str(t)[:80] for t in ts[:3]]))
    core.parallel(ctx, work, ts, nchunks=32)
