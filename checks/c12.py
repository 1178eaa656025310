"""C12: the parallel loop over size bins returns the serial result on every schedule.

The emitted kernel text is parsed (mc/fortran.py) and run under OpenMP data-sharing semantics: private variables start
undefined, everything else is shared, one assignment is a read transition and a write transition.  Visited: every
assignment of bins to threads x every interleaving, for 2..4 threads.  Conflicting accesses of two bins to one element
are reported as such.  Bound to the compiler: serial interpretation = serial executable = -fopenmp executable with 1..8
threads.
"""
import ctypes

import numpy as np

from mc import backends, core, fortran, partition

OUT = ("total_soa_mass", "aw_array", "size_array", "dy_dt")


def outs(mem):
    return np.concatenate([np.atleast_1d(mem[k]).reshape(-1) for k in OUT])


def same(a, b, rtol=1e-9, scale=None):
    s = np.maximum(np.abs(a), np.abs(b)) if scale is None else scale
    return bool(np.all((np.abs(a - b) <= rtol * s) | (np.isnan(a) & np.isnan(b))))


def value(cfg, salt):
    gas = np.array([5.0e9 * (k + 1) for k in range(cfg.ns)])
    gas[-1] = 3.0e17
    cond = np.array([1.0e9 * (k + 2) * (1 + (k * k + salt) % 5) for k in range(cfg.nc * cfg.bins)])
    if salt == 2:
        cond[::3] = 0.0
    return partition.full(cfg, partition.properties(cfg, salt), gas, cond)


@fortran.guarded
def model(ctx, cfg, src, vals):
    u = fortran.Unit(src)
    m = fortran.Machine(u)
    if not m.regions():
        ctx.count("serial_kernels")
    want = None
    for salt, v in enumerate(vals):
        v = {k: v[k] for k in u.args if not u.decl[k]["out"]}
        serial = m.run(v)
        want = outs(serial)
        sc = scale(cfg, v, want)
        for T in range(2, (5 if ctx.thorough or cfg.bins <= 4 else 4)):
            if T ** cfg.bins > (1100 if ctx.thorough else 260):
                continue
            full = cfg.bins * T <= (6 if ctx.thorough else 4) and salt == 0
            for red in (True, False) if full else (True,):
                st = m.explore(v, T, limit=1000000, reduce=red)
                ctx.states += st["states"]
                ctx.transitions += st["transitions"]
                ctx.count("explorations" if red else "unreduced_explorations")
                case = dict(config=repr(cfg), threads=T, salt=salt)
                if st["conflicts"]:
                    (name, kinds), where = sorted(st["conflicts"].items(), key=str)[0]
                    ctx.violation("race:%s" % name, "%d threads: '%s' is %s by two bins concurrently (%s) at %s" % (
                        T, name, "written and read" if "r" in kinds else "written", cfg, where), case)
                    return None
                for f in st["finals"]:
                    if not same(outs(f), want, 1e-9, sc):
                        ctx.violation("schedule:%r" % cfg, "a schedule of %d threads returns %s, serial %s" % (T, outs(f)[:6], want[:6]), case)
                        return None
        ctx.outcome(want.tobytes())
    return True


def scale(cfg, v, want):
    """what each output was summed from: gas entries are sums over bins"""
    ref = partition.reference(cfg, v)
    s = np.concatenate([[abs(ref["total_soa_mass"])], np.abs(ref["aw_array"]), np.abs(ref["size_array"]), ref["mag"]])
    return np.maximum(s, np.abs(want))


def work(ctx, cfgs):
    with core.workdir(ctx.scratch):
        ser = backends.FortranBatch(ctx.scratch, ("-O0",), tag="s")
        par = backends.FortranBatch(ctx.scratch, ("-O2", "-fopenmp"), tag="q")
        ctl = backends.Controlled(ctx.scratch)
        todo = []
        for cfg in cfgs:
            src = cfg.emit()
            todo.append((cfg, src, ser.add("Partitioning.f90"), par.add("Partitioning.f90"), ctl.add("Partitioning.f90"), partition.argnames(src)))
        ser.build()
        par.build()
        ctl.build()
        gomp = ctypes.CDLL("libgomp.so.1")
        for cfg, src, a, b, c, order in todo:
            held = backends.Held(ctx)
            vals = [value(cfg, s) for s in (0, 1, 2)]
            try:
                texts = serially(src, vals)
                model(held, cfg, src, vals)
            except fortran.Unsupported as e:
                ctx.count("outside_the_interpreter")
                ctx.exhaustive = False
                ctx.sample(dict(unsupported=str(e)[:100], config=repr(cfg)))
                texts = [None] * 3
            for f, nm in ((ser, a), (par, b)):
                if nm in f.errors:
                    ctx.violation("compile:%r" % cfg, f.errors[nm], dict(config=repr(cfg)))
                    break
            else:
                for v, t in zip(vals, texts):
                    base = outs(partition.call(ser, a, cfg, v, order))
                    sc = scale(cfg, v, base)
                    if t is not None and not same(t, base, 1e-6, sc):
                        # the model does not describe this text faithfully: nothing it said counts
                        ctx.count("interpreter_disagrees_with_compiler")
                        ctx.exhaustive = False
                        ctx.sample(dict(disagree="%r: %s vs %s" % (cfg, t[:4], base[:4])))
                        held.waiting.clear()
                        texts[:] = [None] * 3
                    for th in (1, 2, 3, 4, 8):
                        gomp.omp_set_num_threads(th)
                        ctx.traces += 1
                        got = outs(partition.call(par, b, cfg, v, order))
                        if not same(got, base, 1e-9, sc):
                            ctx.violation("run:%r" % cfg, "compiled with -fopenmp, %d threads: %s, serial %s" % (th, got[:6], base[:6]), dict(config=repr(cfg), threads=th))
                            break
                    gomp.omp_set_num_threads(1)
                    controlled(ctx, ctl, c, cfg, v, order, base, sc)
            held.release()


@fortran.guarded
def serially(src, vals):
    u = fortran.Unit(src)
    m = fortran.Machine(u)
    return [outs(m.run({k: v[k] for k in u.args if not u.decl[k]["out"]})) for v in vals]


def controlled(ctx, ctl, nm, cfg, v, order, base, sc):
    """the compiled kernel itself under chosen schedules, its memory accesses recorded"""
    if nm in ctl.errors:
        ctx.count("outside_the_controlled_runtime")
        return
    for T, seq, claim in backends.schedules(cfg.bins, ctx.thorough):
        res = []
        conflicts, n = ctl.run(nm, T, seq, claim, lambda: res.append(outs(partition.call(ctl, nm, cfg, v, order))))
        ctx.count("controlled_executions")
        ctx.transitions += n
        case = dict(config=repr(cfg), threads=T, order=list(seq))
        if conflicts:
            ctx.violation("access:%r" % cfg, "compiled kernel, %d threads: two bins touch the same memory concurrently (%s)" % (T, conflicts[0]), case)
            return
        if not same(res[0], base, 1e-9, sc):
            ctx.violation("controlled:%r" % cfg, "compiled kernel, %d threads in order %s: %s, serial %s" % (T, list(seq), res[0][:6], base[:6]), case)
            return


def run(ctx):
    cfgs = [c for c in partition.configs(4 if ctx.thorough else 3, 6 if ctx.thorough else 5)]
    cfgs += [partition.Config(5, (0, 2, 4), b) for b in (1, 2, 3, 4, 8, 16)]
    cfgs += partition.every(4 if ctx.thorough else 3, 6 if ctx.thorough else 5) + [partition.Every(5, (1, 3), b) for b in (1, 2, 3, 4, 8, 16)]
    # more bins and compounds than any model run: the compiled kernel under the controlled runtime
    for b in (25, 33, 50, 65, 100, 130) if not ctx.thorough else (20, 24, 25, 30, 33, 40, 50, 65, 80, 100, 130, 200, 260):
        cfgs += [partition.Config(5, (0, 2, 4), b), partition.Every(5, (1, 3), b)]
    for n, b in ((12, 12), (30, 9), (45, 30)):
        cfgs += [partition.Config(n, tuple(range(0, n - 1, 2)) + (n - 1,), b), partition.Every(n, (1, 3), b)]
    ctx.sample(dict(configurations=[repr(c) for c in cfgs[:6]], total=len(cfgs)))
    core.parallel(ctx, work, cfgs, nchunks=24)
