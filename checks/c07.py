"""C07: OpenMP generation of the gas-phase routines changes nothing, on any schedule.

For every network of a family and every core count the real generators emit the four routines with OpenMP on.  The
emitted text is parsed into thread programs (mc/fortran.py) and every interleaving of their transitions is visited for
2 (and, small routines, 3 and 4) threads; all final memories must equal the serial routine's, and no two
sections that can run concurrently may touch the same element with a write.  Bound to the compiler: the same files are
compiled with -fopenmp and run with 1..4 threads against the compiled serial files and the interpreter.
"""
import ctypes
import multiprocessing
import os
import re

import numpy as np

from mc import backends, core, env, fortran, kpp, nets
from checks.rates import mechanism

ROUTINES = ("rate", "reactants", "loss_gain", "jacobian")
R = kpp.Rxn


def emit(which, text, openmp, cores):
    P, C = env.parse_mod(), env.conv_mod()
    real = multiprocessing.cpu_count, os.cpu_count
    multiprocessing.cpu_count = os.cpu_count = lambda: cores
    try:
        od = backends.parse(text)
        u = backends.unpack(od)
        with core.quiet():
            if which == "rate":
                P.write_rate_file_fortran("m", C.convert_rate_mcm_fortran(od["rate_dict"]), openmp)
                f = "Rate_coefficients.f90"
            elif which == "reactants":
                P.write_reactants_indices_fortran("m", u["neq"], u["s2a"], u["reac"], u["loss"], openmp)
                f = "Reactants_conc.f90"
            elif which == "loss_gain":
                P.write_loss_gain_fortran("m", u["neq"], u["ns"], u["loss"], u["gain"], u["s2a"], openmp)
                f = "Loss_Gain.f90"
            else:
                P.write_gas_jacobian_fortran("m", u["neq"], u["ns"], u["loss"], u["gain"], u["s2a"], u["reac"], openmp)
                f = "Jacobian.f90"
    finally:
        multiprocessing.cpu_count, os.cpu_count = real
    with open(f) as h:
        return f, h.read(), u


def body(src):
    """the text without its comment lines (they hold the time of writing)"""
    return "\n".join(l for l in src.split("\n") if not l.lstrip().startswith("!") or l.lstrip().lower().startswith("!$"))


def arguments(unit):
    """argument name -> value; every element its own number"""
    mem = unit.memory({})
    vals = {}
    for k, a in enumerate(unit.args):
        d = unit.decl[a]
        if d["out"]:
            continue
        x = mem[a]
        n = max(1, x.size)
        if a in ("temp",):
            v = np.array(298.15)
        elif a in ("ttime",):
            v = np.array(40000.0)
        elif a in ("ro2", "h2o"):
            v = np.array(1.0e9 + 7e16 * (a == "h2o"))
        else:
            v = (np.array([2.0 + 3.0 * i + (i * i) % 7 for i in range(n)]) / (1.0 + k)).reshape(x.shape)
        vals[a] = v
    return vals


def outs(unit, mem):
    return np.concatenate([mem[a].reshape(-1, order="F") for a in unit.args if unit.decl[a]["out"]])


def same(a, b, rtol=1e-12):
    if a.shape != b.shape:
        return False
    d = np.abs(a - b) <= rtol * np.maximum(np.abs(a), np.abs(b))
    return bool(np.all(d | (np.isnan(a) & np.isnan(b))))


@fortran.guarded
def model(ctx, which, tag, src, serial_src, case):
    """explore the emitted region; returns False after a violation"""
    u = fortran.Unit(src)
    s = fortran.Unit(serial_src)
    m = fortran.Machine(u)
    vals = arguments(u)
    want = outs(s, fortran.Machine(s).run(vals))
    got = outs(u, m.run(vals))
    if not same(got, want):
        ctx.violation("text:%s:%s" % (which, tag), "with OpenMP on the routine computes %s, without it %s" % (got[:6], want[:6]), case)
        return False
    singles = sum(1 for i in u.code if i[:2] == ["sync", "single"])
    region = sum(1 for r in m.regions() for i in u.code[r:u.code[r][2]] if i[0] in ("set", "sync"))
    ctx.outcome((which, region, want.tobytes()))
    for T in (2, 3, 4):
        if T > 2 and singles > ({3: 20, 4: 8} if ctx.thorough else {3: 8, 4: 4})[T]:
            continue
        st = m.explore(vals, T, limit=400000, reduce=True)
        ctx.states += st["states"]
        ctx.transitions += st["transitions"]
        ctx.count("explorations")
        if region <= ((22, 12, 9) if ctx.thorough else (12, 7, 5))[T - 2] and not st["conflicts"]:
            full = m.explore(vals, T, limit=400000)     # without the reduction
            ctx.states += full["states"]
            ctx.transitions += full["transitions"]
            ctx.count("unreduced_explorations")
            st["conflicts"], st["finals"] = full["conflicts"], st["finals"] + full["finals"]
        if st["conflicts"]:
            (name, kinds), where = sorted(st["conflicts"].items(), key=str)[0]
            ctx.violation("race:%s:%s:%s" % (which, name, tag), "%d threads: '%s' is touched (%s) by concurrent sections at %s" % (
                T, name, "/".join(kinds), where), case)
            return False
        for f in st["finals"]:
            if not same(outs(u, f), want):
                ctx.violation("schedule:%s:%s" % (which, tag), "a schedule of %d threads returns %s, serial %s" % (T, outs(u, f)[:6], want[:6]), case)
                return False
        if not st["finals"]:
            ctx.violation("deadlock:%s:%s" % (which, tag), "no schedule of %d threads finishes" % T, case)
            return False
    return want


def chain(n):
    return [R(["S%d" % i, "S%d" % ((i * 3 + 1) % n)] if i % 3 == 0 else ["S%d" % i], ["S%d" % ((i + 1) % n)] + (["S%d" % ((i + 5) % n)] if i % 2 else []),
              "%d.5D-3*RO2*(1.0+J(4))" % (i + 1) if i % 4 else "%d.0D-12*EXP(-%d/TEMP)" % (i + 2, 100 + i)) for i in range(n)]


def family(ctx):
    out = []
    for n in nets.depth1():
        out.append((nets.key(n), kpp.text(n), "few"))
    d2 = nets.depth2()
    for n in d2 if ctx.thorough else d2[::7]:
        out.append((nets.key(n), kpp.text(n), "few"))
    d3 = nets.depth3()
    for n in d3 if ctx.thorough else d3[::5]:
        out.append((nets.key(n), kpp.text(n), "few"))
    for n in range(1, 41 if ctx.thorough else 21):        # every (size, cores) pair
        out.append(("chain%d" % n, kpp.text(chain(n)), "all"))
        out.append(("wide%d" % n, kpp.text([R(["A"], ["P%d" % i, "Q"], "KMT0%d*%d.0" % (1 + i % 9, i + 1)) for i in range(n)]), "all"))
    for n in (45, 60, 64, 97, 100, 128, 130) + ((200, 257) if ctx.thorough else ()):     # many reactions, many cores
        out.append(("chain%d" % n, kpp.text(chain(n)), "large"))
    for nm in ("MCM_APINENE",) + (("MCM_BCARY",) if ctx.thorough else ()):
        out += [(nm, kpp.text(n), "shipped") for n in nets.shipped(nm)]
    for n in nets.fans(30 if ctx.thorough else 12):
        out.append((nets.key(n)[:60], kpp.text(n), "few"))
    exprs = ["1.0D-12*RO2", "KRO2NO*0.5", "J(4)+J(1)", "KMT12*1.3", "2.0D-12*EXP(-500/TEMP)*H2O", "KFPAN*0.3+KBPAN", "1.0D0",
             "(KRO2HO2+KAPNO)*0.914*RO2", "1.4D-12*(1+(1.0D-21*H2O))", "TEMP**(-1.5)"]
    out.append(("expressions", mechanism(exprs), "all"))
    return out


def work(ctx, items):
    few = (1, 2, 3, 4, 6, 9)
    every = tuple(range(1, 25)) + ((32, 48, 64, 128) if ctx.thorough else (32,))
    counts = {"all": every, "few": few, "large": tuple(range(1, 17)) + (20, 24, 28, 31, 32, 36, 40, 48, 63, 64, 72, 96, 127, 128, 192, 256), "shipped": (1, 3, 8, 16) if ctx.thorough else (3, 16)}
    gomp = None
    held = backends.Held(ctx)
    with core.workdir(ctx.scratch):
        seen, todo = set(), []
        fb = backends.FortranBatch(ctx.scratch, ("-O0", "-fopenmp"), tag="o")
        kb = backends.Controlled(ctx.scratch)
        free = 0
        for tag, text, kind in items:
            for which in ROUTINES:
                _, serial, u = emit(which, text, False, 4)
                snm = None
                for cores in counts[kind]:
                    case = dict(network=tag, routine=which, cores=cores)
                    try:
                        f, src, u = emit(which, text, True, cores)
                    except Exception:
                        ctx.violation("gen:%s:%d:%s" % (which, cores, tag), core.short_exc(), case)
                        continue
                    k = body(src)
                    if k in seen:
                        continue
                    seen.add(k)
                    try:
                        want = model(held, which, "%d:%s" % (cores, tag), src, serial, case)
                        broken = want is False
                    except fortran.Unsupported as e:
                        ctx.count("outside_the_interpreter")
                        ctx.exhaustive = False
                        ctx.sample(dict(unsupported=str(e)[:80], routine=which))
                        want, broken = None, True
                    # compiled executions, a share of the files (each distinct routine text of the big families)
                    if kind in ("all", "shipped") or broken and len(todo) < 600 or len(todo) < (400 if ctx.thorough else 120):
                        if snm is None:
                            with open("serial.f90", "w") as h:
                                h.write(serial)
                            snm = fb.add("serial.f90")
                        # under the controlled runtime: small core counts of every family, a share of the rest
                        knm = kb.add(f) if broken or cores in (3, 4) or kind == "shipped" or len(todo) % 7 == 0 else None
                        todo.append((which, tag, cores, fb.add(f), snm, u, want, knm))
        fb.build()
        kb.build()
        gomp = ctypes.CDLL("libgomp.so.1")
        for which, tag, cores, nm, snm, u, want, knm in todo:
            case = dict(network=tag, routine=which, cores=cores)
            if nm in fb.errors or snm in fb.errors:
                ctx.violation("compile:%s:%d:%s" % (which, cores, tag), "does not compile with -fopenmp: " + fb.errors.get(nm, fb.errors.get(snm)), case)
                continue
            res = []
            for n_, th in ((snm, 1), (nm, 1), (nm, 2), (nm, 3), (nm, 4)):
                gomp.omp_set_num_threads(th)
                res.append(call(fb, n_, which, u))
            ctx.traces += 1
            for r, th in zip(res[1:], (1, 2, 3, 4)):
                if not same(r, res[0], 1e-12):
                    ctx.violation("run:%s:%d:%s" % (which, cores, tag), "compiled with -fopenmp, %d threads: %s, serial %s" % (th, r[:6], res[0][:6]), case)
                    break
            if knm is not None:
                controlled(ctx, kb, knm, which, u, res[0], cores, "%d:%s" % (cores, tag), case)
            if want is not None and want is not False and not agree(res[0], want):
                # the model does not describe this text faithfully: nothing it said counts
                ctx.count("interpreter_disagrees_with_compiler")
                ctx.exhaustive = False
                ctx.sample(dict(disagree="%s %s: %s vs %s" % (which, tag, want[:4], res[0][:4])))
                held.waiting.clear()
                free = 1
        if not free:
            held.release()


def controlled(ctx, kb, nm, which, u, want, cores, tag, case):
    """the compiled routine itself under chosen schedules, its memory accesses recorded"""
    if nm in kb.errors:
        ctx.count("outside_the_controlled_runtime")
        return
    for T, order, claim in backends.schedules(cores - 1, ctx.thorough):
        res = []
        conflicts, n = kb.run(nm, T, order, claim, lambda: res.append(call(kb, nm, which, u)))
        ctx.count("controlled_executions")
        ctx.transitions += n
        if conflicts:
            ctx.violation("access:%s:%s" % (which, tag), "compiled code, %d threads: concurrent sections touch the same memory (%s)" % (T, conflicts[0]), case)
            return
        if not same(res[0], want, 1e-12):
            ctx.violation("controlled:%s:%s" % (which, tag), "compiled code, %d threads in order %s, sections taken by %s: %s, serial %s" % (
                T, order[:8], claim[:8], res[0][:6], want[:6]), case)
            return


def agree(a, b):
    if a.shape != b.shape:
        return False
    sc = max(np.nanmax(np.abs(a)) if a.size else 0, 1e-300)
    small = np.abs(a - b) <= 3e-6 * sc
    return bool(np.all(small | (np.isnan(a) & np.isnan(b))))


def call(fb, nm, which, u):
    ns, neq = u["ns"], u["neq"]

    def seq(n, k):
        return np.array([2.0 + 3.0 * i + (i * i) % 7 for i in range(n)]) / (1.0 + k)
    if which == "rate":
        out = np.full(neq, np.nan)
        fb.call(nm, 1.0e9, 1.0e9 + 7e16, 298.15, 40000.0, out)
        return out
    if which == "reactants":
        out = np.full(neq, np.nan)
        fb.call(nm, seq(ns, 0), out)
        return out
    if which == "loss_gain":
        out = np.full(ns, np.nan)
        fb.call(nm, seq(neq, 0), out)
        return out
    out = np.full((ns, ns), np.nan, order="F")
    fb.call(nm, seq(neq, 0), seq(ns, 1), out)
    return out.reshape(-1, order="F")


def run(ctx):
    fam = family(ctx)
    ctx.sample(dict(networks=len(fam)))
    core.parallel(ctx, work, fam, nchunks=16)
