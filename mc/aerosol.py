"""The aerosol drivers under the scripted solver: emitted gas chemistry and partitioning kernel, and their reference."""
import math
import os
import pickle

import numpy as np

from . import backends, core, driver, env, kpp, partition

NA = 6.0221409e23
CONST = dict(Updraft=0.0, GRAV=9.8, Rv=461.0, Ra=287.0, R_gas=8.3144598, R_gas_other=8.2057e-5, cp=1005, sigma=72.0e-3,
             NA=NA, kb=1.380648e-23, Lv_water_vapour=2.5e3)


def water_logp(T):
    """log10 of the saturation vapour pressure of water in atm (Hyland and Wexler 1983)"""
    p = math.exp(-0.58002206e4 / T + 1.3914993 - 0.48640239e-1 * T + 0.41764768e-4 * T ** 2 - 0.14452093e-7 * T ** 3
                 + 6.5459673 * math.log(T))
    return math.log10(p * 9.86923e-6)


class Kernel(object):
    """the partitioning kernel emitted for one layout"""

    def __init__(self, cfg, batch):
        self.cfg, self.batch = cfg, batch
        self.src = cfg.emit()
        self.name = batch.add("Partitioning.f90")
        self.order = partition.argnames(self.src)

    def f2py(self):
        """dydt_partition as f2py wraps it: inputs in the subroutine's order, outputs returned in its order"""
        outs = ("total_soa_mass", "aw_array", "size_array", "dy_dt")
        ins = [a for a in self.order if a not in outs]
        oo = [a for a in self.order if a in outs]
        cfg = self.cfg
        shape = {}
        for k in ("y",):
            shape[k] = cfg.length
        for k in ("ycore", "core_mass_array", "core_density_array", "n_perbin"):
            shape[k] = cfg.bins
        for k in ("density_input", "mw_array", "psat", "dstar_org", "alpha_d_org", "c_g_i_t", "gamma_gas", "latent_heat"):
            shape[k] = cfg.nc
        shape["ignore_index"] = cfg.ns

        def dydt_partition(*args, **kw):
            if len(args) + len(kw) != len(ins):
                raise driver.Fault("partitioning kernel called with %d arguments, it has %d" % (len(args) + len(kw), len(ins)))
            v = dict(zip(ins, args))
            v.update({k.lower(): x for k, x in kw.items()})
            if sorted(v) != sorted(ins):
                raise driver.Fault("partitioning kernel called with unknown arguments %s" % sorted(set(v) ^ set(ins)))
            u = {}
            for k, x in v.items():
                if k in shape:
                    x = np.ascontiguousarray(x, dtype=np.int64 if k == "ignore_index" else float)
                    if x.shape != (shape[k],):
                        raise driver.Fault("%s of shape %r where (%d,) is needed" % (k, x.shape, shape[k]))
                    if k != "ignore_index":
                        x = x.copy()
                else:
                    x = float(x)
                u[k] = x
            r = partition.call(self.batch, self.name, cfg, u, self.order)
            return tuple(r[k] for k in oo)
        return driver.mod("partition_f2py", dict(dydt_partition=dydt_partition))


class Aero(object):
    """gas mechanism (or None), included compounds (water last), bins: everything a driver needs, and the reference"""

    def __init__(self, rxns, ns_fixed, include, bins, batch, salt=0, T=288.15):
        self.T, self.bins, self.salt = T, bins, salt
        if rxns is None:
            self.gas, n = None, ns_fixed
            self.names = ["C" + "C" * i + "O" for i in range(n)]
        else:
            self.gas = rxns if isinstance(rxns, driver.Gas) else driver.Gas(rxns, batch)
            n = self.gas.ns
            self.names = list(self.gas.names)
        self.pool = self.gas.pool if self.gas else set()
        self.cfg = partition.Config(n + 1, tuple(include) + (n,), bins)
        self.kernel = Kernel(self.cfg, batch)
        p = partition.properties(self.cfg, salt=salt, alpha=0.1)
        self.p = p
        self.core_mw = np.array([132.14 + 3.0 * b for b in range(bins)])
        self.sat_vp = np.log10(p["psat"])
        self.sat_vp[-1] = water_logp(T)
        self.core_diss = 3.0 if salt == 0 else 2.45

    def input_dict(self, conc, cond, gas0=None):
        p, cfg = self.p, self.cfg
        s2a = {n: i for i, n in enumerate(self.names)}
        sd = {i: n for i, n in enumerate(self.names)}
        s2a["H2O"] = cfg.ns - 1
        if self.salt == 1:      # dictionaries in another order than the arrays
            s2a, sd, conc = (dict(reversed(list(x.items()))) for x in (s2a, sd, dict(conc)))
        ign = np.zeros(cfg.ns)
        for i in range(cfg.ns):
            if i not in cfg.include:
                ign[i] = 1.0
        d = dict(CONST)
        d.update(species_dict=sd, species_dict2array=s2a, species_initial_conc=dict(conc),
                 equations=self.gas.neq if self.gas else 0, num_species=cfg.ns, num_species_condensed=cfg.nc,
                 y_density_array_asnumpy=p["density_input"].copy(), y_mw=p["mw_array"].copy(), sat_vp=list(self.sat_vp),
                 Delta_H=[0.0] * cfg.nc, Latent_heat_asnumpy=p["latent_heat"].copy(), DStar_org_asnumpy=p["dstar_org"].copy(),
                 alpha_d_org_asnumpy=p["alpha_d_org"].copy(), gamma_gas_asnumpy=p["gamma_gas"].copy(),
                 ignore_index=[i for i in range(cfg.ns) if ign[i]], ignore_index_fortran=ign,
                 ycore_asnumpy=p["ycore"].copy(), core_density_array_asnumpy=p["core_density_array"].copy(),
                 y_cond_initial=list(cond), num_bins=cfg.bins, core_molw_asnumpy=self.core_mw.copy(),
                 core_dissociation=self.core_diss, N_perbin=p["n_perbin"].copy(), include_index=list(cfg.include))
        if gas0 is not None:
            d["y_gas_initial"] = list(gas0)
        return d

    def modules(self):
        m = {} if self.gas is None else self.gas.f2py()
        m.pop("jacobian_f2py", None)
        m["partition_f2py"] = self.kernel.f2py()
        return m

    def reference(self, y, T, H2O, t, RO2):
        """dy/dt, magnitude, diagnostics"""
        cfg, v = self.cfg, dict(self.p)
        y = np.asarray(y, dtype=float)
        v["y"], v["c_g_i_t"] = y, np.array([y[k] for k in cfg.include])
        v["psat"] = 10.0 ** np.append(self.sat_vp[:-1], water_logp(T))
        v["model_temp"], v["core_diss"] = T, self.core_diss
        v["core_mass_array"] = self.p["ycore"] / NA * self.core_mw
        for k, w in (("sigma", "sigma"), ("na", "NA"), ("r_gas", "R_gas")):
            v[k] = CONST[w]
        r = partition.reference(cfg, v)
        if self.gas is not None:
            w, m = self.gas.reference("R", y[:cfg.ns - 1], T, H2O, t, RO2, "f2py")
            r["dy_dt"][:cfg.ns - 1] += w
            r["mag"][:cfg.ns - 1] += m
        return r


def simulate(kind, aero, rec, start, sim, batch, conc=None, cond=None, gas0=None, T=288.15, RH=0.5, H2O=2.0e17, save=False, fname="m", plot=False):
    inp = aero.input_dict(conc or {}, cond, gas0)
    mods = aero.modules()
    if rec.drawing:
        mods["Plotting"] = env.module("Aerosol/f2py/Fixed_yield/Plotting.py", fresh=True)
    else:
        mods["Plotting"] = driver.mod("Plotting", dict(stacked_bar=lambda *a, **k: None))
    ro2 = aero.gas.ro2.copy() if aero.gas else None
    with driver.installed(rec, mods):
        m = env.module("Aerosol/f2py/ODE_solver.py" if kind == "coupled" else "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py", fresh=True)
        with core.quiet():
            if kind == "coupled":
                out = m.run_simulation(fname, save, start, T, RH, ro2, H2O, 98000.0, inp["y_cond_initial"], inp, sim, batch, plot)
            else:
                out = m.run_simulation(fname, save, start, T, RH, H2O, 98000.0, inp["y_cond_initial"], inp, sim, batch)
    return out, inp


def load(fname, what):
    with open(fname + what, "rb") as f:
        return pickle.load(f)
