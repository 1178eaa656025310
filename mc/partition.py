"""The partitioning kernel: emission, arguments and an independent reference."""
import itertools
import math

import numpy as np

from . import backends, core, env

ORDER = ("y", "ycore", "core_diss", "core_mass_array", "density_input", "core_density_array", "ignore_index", "mw_array",
         "psat", "dstar_org", "alpha_d_org", "c_g_i_t", "n_perbin", "gamma_gas", "latent_heat", "grav", "updraft", "sigma",
         "na", "kb", "rv", "r_gas", "model_temp", "cp", "ra", "lv_water_vapour")
NA = 6.0221409e23


class Config(object):
    """ns gas species (water last), the included ones, bins"""

    def __init__(self, ns, include, bins):
        self.ns, self.include, self.bins, self.mask = ns, tuple(include), bins, ()
        self.nc = len(self.include)
        self.length = ns + self.nc * bins

    def __repr__(self):
        return "%dof%d_%s_x%d" % (self.nc, self.ns, "".join(str(i) for i in self.include), self.bins)

    def emit(self):
        P = env.parse_mod()
        with core.quiet():
            P.write_partitioning_section_fortran_ignore(self.length, self.bins, self.ns, self.nc, np.array(self.include))
        with open("Partitioning.f90") as f:
            return f.read()


class Every(Config):
    """kernel over every gas species; the vapour pressure over a particle of the masked ones is zero"""

    def __init__(self, ns, mask, bins):
        Config.__init__(self, ns, range(ns), bins)
        self.mask = tuple(mask)

    def __repr__(self):
        return "all%d_mask%s_x%d" % (self.ns, "".join(str(i) for i in self.mask), self.bins)

    def emit(self):
        P = env.parse_mod()
        with core.quiet():
            P.write_partitioning_section_fortran(self.length, self.bins, self.ns)
        with open("Partitioning.f90") as f:
            return f.read()


def every(nsmax, binsmax):
    return [Every(ns, m, b) for ns in range(1, nsmax + 1) for k in range(ns) for m in itertools.combinations(range(ns - 1), k)
            for b in range(1, binsmax + 1)]


def configs(nsmax, binsmax):
    out = []
    for ns in range(1, nsmax + 1):
        for k in range(0, ns):
            for sub in itertools.combinations(range(ns - 1), k):
                for b in range(1, binsmax + 1):
                    out.append(Config(ns, sub + (ns - 1,), b))
    return out


def properties(cfg, salt=0, T=298.15, alpha=1.0, sigma=72.0e-3, core_diss=3.0):
    """compound and bin properties; everything different from everything else"""
    n, b = cfg.nc, cfg.bins
    i, j = np.arange(n), np.arange(b)
    mw = 46.0 + 31.0 * ((i + salt) % 5) + i % 37 % 37
    psat = 10.0 ** (-13.0 + 1.7 * ((2 * i + salt) % 6))
    mw[-1], psat[-1] = 18.0, 0.031
    dens = 1100.0 + 130.0 * ((i + 2 * salt) % 4) + 10.0 * (i % 31)        # kg/m3
    dens[-1] = 1000.0
    return dict(core_diss=core_diss, density_input=dens, core_density_array=1770.0 + 10.0 * j,
                ycore=1.0e9 * (1.0 + j) * (1 + salt), core_mass_array=1.0e9 * (1.0 + j) * (1 + salt) / NA * 132.14,
                ignore_index=np.array([0 if k in cfg.include and k not in cfg.mask else 1 for k in range(cfg.ns)], dtype=np.int64),
                mw_array=mw, psat=psat, dstar_org=0.04 + 0.011 * (i % 41) + 0.003 * salt, alpha_d_org=np.full(n, alpha) * (1.0 - 0.03 * (i % 25) * (alpha < 1)),
                n_perbin=500.0 / (1.0 + j) + 10 * salt, gamma_gas=(4.0 + i % 43) * 1.0e-8, latent_heat=np.full(n, 4.0e4),
                grav=9.8, updraft=0.0, sigma=sigma, na=NA, kb=1.380648e-23, rv=461.0, r_gas=8.3144598, model_temp=T,
                cp=1005.0, ra=287.0, lv_water_vapour=2.5e6)


def full(cfg, props, gas, cond):
    """argument dictionary; cond is bins x nc"""
    v = dict(props)
    y = np.concatenate([np.asarray(gas, dtype=float), np.asarray(cond, dtype=float).reshape(-1)])
    v["y"] = y
    v["c_g_i_t"] = np.array([gas[k] for k in cfg.include], dtype=float)
    return v


def reference(cfg, v):
    """condensation law, bin by bin; also the magnitude each gas-phase entry was summed from"""
    ns, nc = cfg.ns, cfg.nc
    dy, mag = np.zeros(cfg.length), np.zeros(cfg.length)
    aw, size, soa = np.zeros(cfg.bins), np.zeros(cfg.bins), 0.0
    T = v["model_temp"]
    for b in range(cfg.bins):
        n = v["y"][ns + b * nc:ns + (b + 1) * nc]
        tot = float(n.sum()) + v["ycore"][b] * v["core_diss"]
        m = [n[i] / v["na"] * v["mw_array"][i] for i in range(nc)]
        rho = list(v["density_input"]) + [v["core_density_array"][b]]
        M = m + [v["core_mass_array"][b]]
        mt = sum(M)
        vol = sum(x / r for x, r in zip(M, rho))
        dens = mt / vol
        soa += sum(m[:-1])
        aw[b] = n[-1] / tot
        r = (3.0 * (mt * 1e3 / (v["n_perbin"][b] * 1e6)) / (4.0 * math.pi * dens)) ** (1.0 / 3.0)      # g/cc -> kg/m3, /cc -> /m3
        size[b] = r
        for i in range(nc):
            kn = v["gamma_gas"][i] / r
            a = v["alpha_d_org"][i]
            fs = 1.0 / (1.0 + ((1.33 + 0.71 / kn) / (1.0 + 1.0 / kn) + 4.0 * (1.0 - a) / (3.0 * a)) * kn)
            kel = math.exp(min(700.0, 4.0 * v["mw_array"][i] * 1e-3 * v["sigma"] / (v["r_gas"] * T * 2.0 * r * dens)))
            peq = 0.0 if i in cfg.mask else kel * n[i] / tot * v["psat"][i] * 101325.0
            ceq = peq * v["na"] / (8.3144598e6 * T)
            k = 4.0 * math.pi * r * 1e2 * v["n_perbin"][b] * v["dstar_org"][i] * fs
            c = v["c_g_i_t"][i]
            d = k * (c - ceq)
            dy[ns + b * nc + i] = d
            mag[ns + b * nc + i] = k * max(abs(c), abs(ceq))
            dy[cfg.include[i]] -= d
            mag[cfg.include[i]] += mag[ns + b * nc + i]
    return dict(total_soa_mass=soa * 1e12, aw_array=aw, size_array=size, dy_dt=dy, mag=mag)


def argnames(src):
    """argument names of the emitted kernel, in its order"""
    import re
    code = "\n".join(l for l in src.split("\n") if not l.lstrip().startswith("!"))
    m = re.search(r"(?is)subroutine\s+\w+\s*\((.*?)\)", code)
    return [a.strip().lower() for a in m.group(1).replace("&", " ").split(",")]


def call(fb, nm, cfg, v, order=None):
    soa, aw, size, dy = np.full(1, np.nan), np.full(cfg.bins, np.nan), np.full(cfg.bins, np.nan), np.full(cfg.length, np.nan)
    vals = dict(v, total_soa_mass=soa, aw_array=aw, size_array=size, dy_dt=dy)
    args = [np.ascontiguousarray(vals[k]) if np.ndim(vals[k]) else vals[k]
            for k in order or ORDER + ("total_soa_mass", "aw_array", "size_array", "dy_dt")]
    fb.call(nm, *args)
    return dict(total_soa_mass=float(soa[0]), aw_array=aw, size_array=size, dy_dt=dy)
