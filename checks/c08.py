"""C08: the RO2 pool is the sum over exactly the peroxy radicals of the mechanism, each once.

Explored: every name of the MCM RO2 list alone, every near miss of every name, all orders of all subsets of a
small pool of species (through the real parser), the species of the shipped mechanisms, and all histories of
two index files written one after the other.  Oracle: own copy of the list (data/ro2.txt), and - independently of
any list - the mechanism itself, where a peroxy radical is a species with a loss whose rate contains RO2.
"""
import itertools
import os
import re

import numpy as np

from mc import backends, core, driver, env, kpp

# on the shipped list but Criegee-type or obsolete names; the property does not pin them down
NEUTRAL = {"C626O2", "C818O2", "CH3C2H2O2", "CH3SOO", "HODMSO2", "IPGLOO", "IPGLOOB", "IPRCHOO", "IPRCHOOA"}
RO2 = set()
with open(os.path.join(core.VERIF, "data", "ro2.txt")) as _f:
    RO2 = set(_f.read().split())
POOL = ["CH3O2", "NO", "HOCH2CO3", "APINENE", "C96O2", "HO2", "IBUTALBO2"]


def write(s2a, fname=None):
    from mc import driver
    fname = fname or driver.RUNS[len(s2a) % len(driver.RUNS)]
    P = env.parse_mod()
    with core.quiet():
        P.write_RO2_indices(fname, s2a)
    return np.load(fname + "_RO2_indices.npy")


def check(ctx, sig, s2a, idx, case):
    ctx.states += 1
    ctx.traces += 1
    y = np.array([float(2 ** (i % 40)) + i for i in range(max(list(s2a.values()) + [-1]) + 1)])
    got_names = None
    try:
        got = float(np.sum(y[idx])) if len(s2a) else 0.0
    except Exception:
        ctx.violation("sum:" + sig, "the index file cannot be used to sum concentrations: " + core.short_exc(), case)
        return
    back = {i: n for n, i in s2a.items()}
    got_names = [back[int(i)] for i in np.atleast_1d(idx)]
    sure = sorted(n for n in got_names if n not in NEUTRAL)
    want = sorted(n for n in s2a if n in RO2 and n not in NEUTRAL)
    ctx.outcome(tuple(want))
    if sure != want:
        extra, miss = sorted(set(sure) - set(want)), sorted(set(want) - set(sure))
        ctx.violation("pool:" + ",".join(miss + ["-"] + extra)[:60], "RO2 pool differs: missing %s, wrongly counted %s, counted twice %s (%s)" % (
            miss[:8], extra[:8], [n for n in sure if sure.count(n) > 1][:4], sig), case)
        return
    w = sum(y[s2a[n]] for n in got_names)
    if not abs(got - w) <= 1e-9 * max(w, 1.0):
        ctx.violation("value:" + sig, "RO2 = %r, sum of the pool = %r" % (got, w), case)


def singles(ctx):
    for n in sorted(RO2):
        for s2a in ({n: 0}, {n: 1, "NO": 0}, {"NO": 0, n: 1, "O3": 2}):
            ctx.transitions += 1
            check(ctx, n, s2a, write(s2a), dict(species=s2a))
        near = [n + "A", n[:-1], "X" + n, n.lower(), n + ")", n + "H", n.replace("O2", "O") if "O2" in n else n + "O"]
        s2a = {m: i for i, m in enumerate(dict.fromkeys(near))}
        ctx.transitions += 1
        check(ctx, "near " + n, s2a, write(s2a), dict(species=s2a))


def orders(ctx):
    size = 6 if ctx.thorough else 5
    for k in range(1, size + 1):
        for p in itertools.permutations(POOL, k):
            ctx.transitions += k
            text = kpp.text([kpp.Rxn([n], ["P%d" % (i % 2)], "1.0D-3") for i, n in enumerate(p)])
            od = backends.parse(text)
            s2a = dict(od["species_dict2array"])
            check(ctx, "order " + "+".join(p), s2a, write(s2a), dict(order=p))


def sizes(ctx):
    """mechanisms of every magnitude, peroxy radicals at the ends, spread out, or all of them"""
    some = sorted(RO2)
    for n in (100, 127, 128, 129, 255, 256, 257, 1000, 4096, 10000, 32767, 32768, 32769, 40000, 65536, 65537, 70000):
        for put in ("first", "last", "spread"):
            names = ["S%d" % i for i in range(n)]
            k = min(len(some), max(1, n // 10))
            for j in range(k):
                names[dict(first=j, last=n - 1 - j, spread=(j * n) // k)[put]] = some[(j * 37) % len(some)] if k == len(some) else some[j]
            s2a = {m: i for i, m in enumerate(dict.fromkeys(names))}
            ctx.transitions += n
            check(ctx, "size%d%s" % (n, put), s2a, write(s2a), dict(size=n, put=put))
    for order in (some, some[::-1]):
        s2a = {m: i for i, m in enumerate(order)}
        check(ctx, "everything" + order[0], s2a, write(s2a), dict(all=True))


def histories(ctx):
    mechs = [["NO", "O3"], ["CH3O2", "NO"], ["NO", "C96O2", "CH3O2"], [], ["HOCH2CO3"], ["NO", "O3", "HO2", "CH3O2"]]
    for a, b, same in itertools.product(range(len(mechs)), range(len(mechs)), (0, 1)):
        A = {n: i for i, n in enumerate(mechs[a])}
        B = {n: i for i, n in enumerate(mechs[b])}
        ctx.transitions += 2
        write(A, "one")
        ib = write(B, "one" if same else "two")
        check(ctx, "after %d then %d" % (a, b), B, ib, dict(first=A, second=B))
        if not same:
            check(ctx, "first of %d then %d" % (a, b), A, np.load("one_RO2_indices.npy"), dict(first=A, second=B))


def shipped(ctx):
    for f in ("mechanism_files/MCM_APINENE.eqn.txt", "mechanism_files/MCM_BCARY.eqn.txt", "MCM_test.eqn.txt", "MCM_mixed_test.eqn.txt"):
        with open(os.path.join(core.REPO, f)) as h:
            t = h.read()
        loss = {m.group(1) for m in re.finditer(r"\}\s*([A-Z0-9]+)\s*=[^:]*:\s*([^;]*);", t) if re.search(r"\*\s*RO2\b", m.group(2))}
        names = list(dict.fromkeys(x for m in re.finditer(r"\}([^:]*):", t) for x in re.findall(r"\b[A-Z][A-Z0-9]*\b", m.group(1))))
        for order in (names, names[::-1]):
            s2a = {n: i for i, n in enumerate(order)}
            ctx.transitions += len(names)
            idx = write(s2a)
            check(ctx, f, s2a, idx, dict(mechanism=f))
            back = {i: n for n, i in s2a.items()}
            got = {back[int(i)] for i in idx} - NEUTRAL
            if got != loss - NEUTRAL:
                ctx.violation("kinetics:" + f, "species with an RO2-dependent loss but not in the pool: %s; in the pool without such a loss: %s" % (
                    sorted(loss - NEUTRAL - got)[:6], sorted(got - loss)[:6]), dict(mechanism=f))
        ctx.count("shipped_species", len(names))


def in_drivers(ctx, perms):
    """the pool the drivers actually put into the rate coefficients, through all generated routines"""
    with core.workdir(ctx.scratch):
        b = backends.FortranBatch(ctx.scratch, tag="r")
        gs = []
        for p in perms:
            rx = [kpp.Rxn([n], ["Z%d" % (i % 2)], "%d.0D-3*RO2" % (i + 1)) for i, n in enumerate(p)]
            gs.append((p, driver.Gas(rx, b)))
        b.build()
        if b.errors:
            raise RuntimeError(list(b.errors.values())[0])
        for p, g in gs:
            for w in ("numba", "f2py"):
                ctx.states += 1
                ctx.traces += 1
                case = dict(order=p, driver=w)

                def script(bi, solver, bt):
                    for s in (0, 1, 2):
                        y = np.array([float((i * 7 + 3 * s) % 11) if (i + s) % 3 else 0.0 for i in range(g.ns)])
                        for kind in ("R", "J"):
                            driver.ask(solver, bt, kind, 0.0, y)
                    return [bt["tf"]], [bt["y0"] + bi + 1.0]
                rec = driver.Recorder(script)
                try:
                    driver.simulate(w, g, rec, {p[0]: 1.0}, 0.0, 2.0, 1.0)
                except Exception:
                    ctx.violation("driver-raised:%s:%s" % (w, "+".join(p)), core.short_exc(), case)
                    continue
                for bt in rec.batches:
                    for kind, t, y, v in bt["calls"]:
                        ctx.transitions += 1
                        want, mag = g.reference(kind, y, 298.15, 3.0e17, 0.0, RO2)
                        if v.size != want.size or np.any(~(np.abs(v.reshape(want.shape) - want) <= 3e-6 * mag)):
                            ctx.violation("driver:%s:%s" % (w, "+".join(p)), "%s with rates proportional to RO2: solver got %s, sum over the peroxy radicals gives %s (order %s, y=%s)" % (
                                kind, v.reshape(-1)[:5], want.reshape(-1)[:5], p, y), case)
                            break


def run(ctx):
    ctx.sample(dict(pool=POOL))
    with core.workdir(ctx.scratch):
        singles(ctx)
        orders(ctx)
        sizes(ctx)
        histories(ctx)
        shipped(ctx)
    perms = [p for k in range(1, (5 if ctx.thorough else 4)) for p in itertools.permutations(POOL, k)]
    names = sorted(RO2)[::17]
    perms += [tuple(names), tuple(x for i, n in enumerate(names) for x in ("S%d" % i, n)), tuple(["S%d" % i for i in range(30)] + names[::-1])]
    core.parallel(ctx, in_drivers, perms)
