"""A stand-in for UManSysProp: every property is a known function of the molecule's own structure."""
import sys
import types
import zlib

FIELDS = ("vp", "bp", "crit", "dens")


def smiles(c):
    """canonical structure of a pybel molecule (or of the picklable stand-in)"""
    s = getattr(c, "smi", None)
    return s if s is not None else c.write("can").split()[0]


coarse = set()      # properties (of "bp", "crit", "vp", "dens") that come out alike for all structures


def h(name, c, *extra):
    """a number in [0, 1) that depends on the method, the structure and nothing else"""
    return (zlib.crc32(("%s|%s" % (name, "" if name.split(".")[0] in coarse else smiles(c))).encode()) % 99991) / 99991.0


def bp(name, c):
    return 350.0 + 250.0 * h("bp." + name, c)


def crit(name, c, b):
    return 500.0 + 200.0 * h("crit." + name, c) + 0.3 * b


def vp(name, c, t, b=None):
    """log10 atm: between -14 and -2 at 288 K"""
    v = -14.0 + 12.0 * h("vp." + name, c) + 0.02 * (t - 288.15)
    return v if b is None else v + 0.001 * (b - 475.0)


def dens(name, c, t=None, p=None):
    """g/cc"""
    v = 0.9 + 0.6 * h("dens." + name, c)
    if t is not None:
        v += 1e-4 * (t - 288.15) + 1e-5 * p
    return v


def composition(c):
    n = {}
    for a in c.atoms:
        k = a.OBAtom.GetAtomicNum()
        n[k] = n.get(k, 0) + 1
        n[1] = n.get(1, 0) + a.OBAtom.GetImplicitHCount()
    return {"C": float(n.get(6, 0)), "O": float(n.get(8, 0)), "H": float(n.get(1, 0)), "N": float(n.get(7, 0)),
            "S": float(n.get(16, 0))}


def modules():
    top = types.ModuleType("umansysprop")
    top.__path__ = []
    out = {"umansysprop": top}

    def sub(name, **kw):
        m = types.ModuleType("umansysprop." + name)
        m.__dict__.update(kw)
        setattr(top, name, m)
        out["umansysprop." + name] = m
    sub("boiling_points", **{k: (lambda c, k=k: bp(k, c)) for k in ("joback_and_reid", "stein_and_brown", "nannoolal")})
    sub("vapour_pressures", nannoolal=lambda c, t, b: vp("nannoolal", c, t, b),
        myrdal_and_yalkowsky=lambda c, t, b: vp("myrdal_and_yalkowsky", c, t, b), evaporation=lambda c, t: vp("evaporation", c, t))
    sub("critical_properties", **{k: (lambda c, b, k=k: crit(k, c, b)) for k in ("nannoolal", "joback_and_reid")})
    sub("liquid_densities", girolami=lambda c: dens("girolami", c),
        **{k: (lambda c, t, p, k=k: dens(k, c, t, p)) for k in ("schroeder", "le_bas", "tyn_and_calus")})
    sub("partition_models")
    sub("groups", composition=composition)
    sub("activity_coefficient_models_dev")
    sub("forms", CoreAbundanceField=type("CoreAbundanceField", (), {}))
    return out


def expected(c, temp, vpm, bpm, crm, dem):
    """(log10 vapour pressure, acceptable densities) of one molecule; the critical property used for the density may
    take the Nannoolal or the chosen boiling point"""
    b = bp(bpm, c)
    v = vp(vpm, c, temp, None if vpm == "evaporation" else b)
    if dem == "girolami":
        d = [dens(dem, c)]
    else:
        d = [dens(dem, c, temp, crit(crm, c, x)) for x in (bp("nannoolal", c), b)]
    return v, [x * 1e3 for x in d]


def install():
    sys.modules.update(modules())
