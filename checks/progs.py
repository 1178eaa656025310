"""Mechanisms, structure files and expectations for runs of the repository's own programs."""
import math

import numpy as np

from checks import c09
from mc import aerosol, core, driver, kpp, partition, program, umsp

R = kpp.Rxn
# every mechanism holds what the programs start from (O3, APINENE) and what they plot (PINONIC)
MECHS = {
    "MCM_APINENE": c09.MECHS["full"],
    "MECH_B": [R(["PINONIC", "OH"], ["C96O2"], "6.6D-12"), R(["C96O2"], ["PINONIC", "HCHO"], "2.0D-13*RO2"),
               R(["APINENE", "O3"], ["OH", "C96O2"], "8.05D-16*EXP(-640/TEMP)*0.6"), R(["O3", "hv"], ["OH"], "J(2)"),
               R(["HCHO", "hv"], ["OH", "OH"], "J(12)")],
    "MECH_C": [R(["O3", "APINENE"], ["PINONIC"], "1.0D-17*TEMP"), R(["PINONIC"], [], "1.0D-5")],
}
# the same reactions in another order: other indices, other slots
MECHS["MECH_D"] = [MECHS["MECH_B"][i] for i in (4, 2, 0, 3, 1)]
SMILES = {"APINENE": "CC1=CCC2CC1C2(C)C", "PINONIC": "CC(=O)C1CC(CC(=O)O)C1(C)C", "HCHO": "C=O", "CH3O2": "CO[O]", "C2H5O2": "CCO[O]",
          "C96O2": "CC(=O)C1CC(CO[O])C1(C)C"}
YIELDS = {
    "MCM_yield": [("O=CCC1CC(OO)(C(=O)C)C1(C)C", 0.35051), ("OC(=O)CC1CC(C(=O)C)C1(C)C", 0.18951), ("OCC1CC(OO)(C(=O)C)C1(C)C", 0.15883)],
    "YIELD_B": [("OCC1CC(OO)(C(=O)C)C1(C)C", 0.21), ("O=CCC1CC(C(=O)C)C1(C)C", 0.10359)],
}
DEF = dict(temp=288.15, RH=0.5, total_conc=100, std=2.2, lowersize=0.01, uppersize=1.0, meansize=0.2, vp_cutoff=-6.0)


def texts(names=None):
    return {k: kpp.text(v) for k, v in MECHS.items() if names is None or k in names}


def xml(smiles):
    from checks import c15
    return c15.xml([(n, "own" if s else "none", s) for n, s in smiles.items()])


def yields():
    return {k: "".join("%s  %.5f\n" % x for x in v) for k, v in YIELDS.items()}


_refs = {}


def ref(name):
    if name not in _refs:
        _refs[name] = program.Ref(MECHS[name], kpp.text(MECHS[name]))
    return _refs[name]


def steps(sim, batch):
    from fractions import Fraction
    return int(c09.ceil(Fraction(str(sim)), Fraction(str(batch))))


def gas_run(top, which, name, cache, reuse=False, sim=250.0, batch=100.0, hour=12.0, temp=298.15, RH=0.5, conc=(18.0, 30.0), fname=None, **more):
    """run a gas-phase program; (what, message) or None, and whether the program could be set up as asked"""
    consts = dict(filename=fname or name, files_exist=reuse, simulation_time=sim, batch_step=batch, hour_of_day=hour, temp=temp, RH=RH)
    consts[("species_initial_conc", "O3")], consts[("species_initial_conc", "APINENE")] = conc
    consts.update(more)
    out = program.run(top, which, consts, cache)
    if out.get("outside"):
        return None, out, ["outside"]
    lost = [k for k in consts if k not in out.get("set", consts)]
    if lost:
        return lame(out, reuse), out, lost
    g = ref(name)
    y0 = np.zeros(g.ns)
    y0[g.s2a["O3"]], y0[g.s2a["APINENE"]] = conc[0] * driver.CF, conc[1] * driver.CF
    h2o = h2o_of(out, program.humidity(temp, RH))
    if isinstance(h2o, tuple):
        return h2o, out, []
    v = program.batches(out, y0, hour * 3600.0, sim, batch, steps(sim, batch),
                        lambda y, t: g.reference("R", y, temp, h2o, t, c09.RO2), 3e-6,
                        lambda y, t: g.reference("J", y, temp, h2o, t, c09.RO2))
    return v, out, []


def lame(out, reuse):
    """a program whose settings are not the known ones runs with its own; run it must"""
    return ("raised", out["error"]) if out["error"] and not reuse else None


def h2o_of(out, want):
    a = out.get("args") or {}
    if "H2O" not in a:
        return want
    h = float(a["H2O"])
    if abs(h - want) > 0.05 * want:
        return ("humidity", "the simulation is given %r molecules/cc of water, the humidity asked for is %r" % (h, want))
    return h


def lognormal(bins, total, M, s, lo, hi):
    x = [math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * i / (bins - 1)) if bins > 1 else lo for i in range(bins)]
    p = [math.exp(-math.log(v / M) ** 2 / (2 * math.log(s) ** 2)) / v for v in x]
    return np.array([q / sum(p) * total for q in p]), np.array(x)


class Expected(object):
    """what an aerosol program has to hand the solver, from its settings alone"""

    def __init__(self, names, structures, S, bins, ignore_vp, methods):
        """names: gas species in array order; structures: name -> SMILES"""
        import pybel
        T = S["temp"]
        self.S, self.bins, n = S, bins, len(names)
        inc, mw, sat, dens = [], [], [], []
        for i, nm in enumerate(names):
            if nm not in structures:
                continue
            m = pybel.readstring("smi", structures[nm])
            v, d = umsp.expected(m, T, *methods)
            if ignore_vp and v > S["vp_cutoff"]:
                continue
            inc.append(i)
            mw.append(m.molwt)
            sat.append(v)
            dens.append(d[0])
        self.include = inc
        self.cfg = partition.Config(n + 1, tuple(inc) + (n,), bins)
        mw, dens = np.array(mw + [18.0]), np.array(dens + [1000.0])
        N, x = lognormal(bins, S["total_conc"], S["meansize"], S["std"], S["lowersize"], S["uppersize"])
        yc = 4.0 / 3.0 * math.pi * (x * 1e-6) ** 3 * 1770.0 / 0.13214 * aerosol.NA * N
        D = 1.9 * mw ** (-2.0 / 3.0)
        vel = np.sqrt(8.0 * 8.3144598 * T / (math.pi * mw * 1e-3))
        self.v = dict(core_diss=3.0, density_input=dens, core_density_array=np.full(bins, 1770.0), ycore=yc, core_mass_array=yc / aerosol.NA * 132.14,
                      ignore_index=None, mw_array=mw, psat=10.0 ** np.array(sat + [aerosol.water_logp(T)]), dstar_org=D,
                      alpha_d_org=np.full(len(mw), 0.1), n_perbin=N, gamma_gas=3.0 * D / (vel * 1e2) * 1e-2, sigma=72.0e-3, na=aerosol.NA,
                      r_gas=8.3144598, model_temp=T)
        c = np.zeros((bins, self.cfg.nc))
        c[:, -1] = yc * 3.0 * S["RH"] / (1.0 - S["RH"])
        self.cond = c.reshape(-1)

    def rhs(self, y, gas=None):
        v = dict(self.v)
        v["y"], v["c_g_i_t"] = np.asarray(y), np.array([y[k] for k in self.cfg.include])
        r = partition.reference(self.cfg, v)
        if gas is not None:
            w, m = gas
            r["dy_dt"][:len(w)] += w
            r["mag"][:len(w)] += m
        return r["dy_dt"], r["mag"]


BASE = ("nannoolal", "joback_and_reid", "nannoolal", "girolami")


def coupled_run(top, name, cache, structures, reuse=False, sim=250.0, batch=100.0, hour=12.0, bins=2, ignore_vp=True, cut=-6.0, conc=(18.0, 30.0), fname=None, **more):
    S = dict(DEF, vp_cutoff=cut, **more)
    consts = dict(S, filename=fname or name, files_exist=reuse, simulation_time=sim, batch_step=batch, hour_of_day=hour, num_bins=bins, ignore_vp=ignore_vp)
    consts[("species_initial_conc", "O3")], consts[("species_initial_conc", "APINENE")] = conc
    out = program.run(top, "coupled", consts, cache)
    if out.get("outside"):
        return None, out, ["outside"]
    lost = [k for k in consts if k not in out.get("set", consts)]
    if lost:
        return lame(out, reuse), out, lost
    g = ref(name)
    st = {n: s for n, s in structures.items() if s and n in g.s2a and n not in ("OH", "HO2", "O3", "hv")}
    e = Expected(g.names, st, S, bins, ignore_vp, BASE)
    h2o = h2o_of(out, program.humidity(S["temp"], S["RH"]))
    if isinstance(h2o, tuple):
        return h2o, out, []
    y0 = np.zeros(e.cfg.length)
    y0[g.s2a["O3"]], y0[g.s2a["APINENE"]] = conc[0] * driver.CF, conc[1] * driver.CF
    y0[g.ns] = h2o
    y0[e.cfg.ns:] = e.cond
    v = program.batches(out, y0, hour * 3600.0, sim, batch, steps(sim, batch),
                        lambda y, t: e.rhs(y, g.reference("R", y[:g.ns], S["temp"], h2o, t, c09.RO2)), 5e-6)
    return v, out, []


def fixed_run(top, name, cache, reuse=False, sim=250.0, batch=100.0, bins=2, ignore_vp=False, cut=-6.0, voc=30.0, fname=None, **more):
    S = dict(DEF, vp_cutoff=cut, **more)
    consts = dict(S, filename=fname or name, files_exist=reuse, simulation_time=sim, batch_step=batch, num_bins=bins, ignore_vp=ignore_vp, total_voc_mass=voc)
    out = program.run(top, "fixed", consts, cache)
    if out.get("outside"):
        return None, out, ["outside"]
    lost = [k for k in consts if k not in out.get("set", consts)]
    if lost:
        return lame(out, reuse), out, lost
    names = [s for s, _ in YIELDS[name]]
    e = Expected(names, {s: s for s in names}, S, bins, ignore_vp, ("nannoolal", "nannoolal", "nannoolal", "girolami"))
    T = S["temp"]
    h2o = h2o_of(out, S["RH"] * aerosol.NA * 10.0 ** aerosol.water_logp(T) / 9.86923e-6 * 1e-6 / (8.314472 * T))
    if isinstance(h2o, tuple):
        return h2o, out, []
    y0 = np.concatenate([[c * voc * T / (12.187 * 136.24) * 2.46e10 for _, c in YIELDS[name]], [h2o], e.cond])
    v = program.batches(out, y0, 43200.0, sim, batch, steps(sim, batch), lambda y, t: e.rhs(y), 5e-6)
    return v, out, []
