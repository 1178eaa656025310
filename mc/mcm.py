"""Independent model of the MCM generic rate coefficients and photolysis rates.

Transcribed as data: Troe fall-off parameters per coefficient and (l, m, n) per photolysis channel.
"""
import math

M = 2.55e19
N2 = 0.79 * M
O2 = 0.2095 * M

# simple coefficients: name -> (A, E) meaning A*exp(E/T)
ARRHENIUS = {
    "KRONO2": (2.70e-12, 360.0), "KRO2NO": (2.7e-12, 360.0), "KRO2HO2": (2.91e-13, 1300.0),
    "KAPHO2": (5.2e-13, 980.0), "KAPNO": (7.5e-12, 290.0), "KRO2NO3": (2.3e-12, 0.0), "KNO3AL": (1.4e-12, -1860.0),
    "KDEC": (1.0e6, 0.0), "KROPRIM": (2.50e-14, -300.0), "KROSEC": (2.50e-14, -300.0), "KCH3O2": (1.03e-13, 365.0),
    "K298CH3O2": (3.5e-13, 0.0), "K14ISOM1": (3.00e7, -5300.0),
}
# fall-off: name -> (k0: A, n, E) x M x (T/300)^n exp(E/T), (kinf: A, n, E), Fc
TROE = {
    "KFPAN": ((3.28e-28, -6.87, 0), (1.125e-11, -1.105, 0), 0.30),
    "KBPAN": ((1.10e-5, 0, -10100.0), (1.90e17, 0, -14100.0), 0.30),
    "KMT01": ((1.0e-31, -1.6, 0), (5.0e-11, 0.3, 0), 0.85),
    "KMT02": ((1.3e-31, -1.5, 0), (2.3e-11, 0.24, 0), 0.6),
    "KMT03": ((3.6e-30, -4.1, 0), (1.9e-12, 0.2, 0), 0.35),
    "KMT04": ((1.3e-3, -3.5, -11000.0), (9.7e14, 0.1, -11080.0), 0.35),
    "KMT07": ((7.4e-31, -2.4, 0), (3.3e-11, -0.3, 0), 0.81),
    "KMT08": ((3.2e-30, -4.5, 0), (3.0e-11, 0, 0), 0.41),
    "KMT09": ((1.4e-31, -3.1, 0), (4.0e-12, 0, 0), 0.4),
    "KMT10": ((4.1e-5, 0, -10650.0), (6.0e15, 0, -11170.0), 0.4),
    "KMT12": ((2.5e-31, -2.6, 0), (2.0e-12, 0, 0), 0.53),
    "KMT13": ((2.5e-30, -5.5, 0), (1.8e-11, 0, 0), 0.36),
    "KMT14": ((9.0e-5, 0, -9690.0), (1.1e16, 0, -10560.0), 0.36),
    "KMT15": ((8.6e-29, -3.1, 0), (9.0e-12, -0.85, 0), 0.48),
    "KMT16": ((8.0e-27, -3.5, 0), (3.0e-11, -1.0, 0), 0.5),
    "KMT17": ((5.0e-30, -1.5, 0), (1.0e-12, 0, 0), None),
}
NAMES = sorted(ARRHENIUS) + sorted(TROE) + ["KALKOXY", "KALKPXY", "KBPPN", "KMT05", "KMT06", "KMT11", "KMT18", "M", "N2", "O2"]

PHOT = {1: (6.073e-5, 1.743, 0.474), 2: (4.775e-4, 0.298, 0.080), 3: (1.041e-5, 0.723, 0.279), 4: (1.165e-2, 0.244, 0.267),
        5: (2.485e-2, 0.168, 0.108), 6: (1.747e-1, 0.155, 0.125), 7: (2.644e-3, 0.261, 0.288), 8: (9.312e-7, 1.230, 0.307),
        11: (4.642e-5, 0.762, 0.353), 12: (6.853e-5, 0.477, 0.323), 13: (7.344e-6, 1.202, 0.417), 14: (2.879e-5, 1.067, 0.358),
        15: (2.792e-5, 0.805, 0.338), 16: (1.675e-5, 0.805, 0.338), 17: (7.914e-5, 0.764, 0.364), 18: (1.482e-6, 0.396, 0.298),
        19: (1.482e-5, 0.396, 0.298), 20: (7.600e-4, 0.396, 0.298), 21: (7.992e-7, 1.578, 0.271), 22: (5.804e-6, 1.092, 0.377),
        23: (2.4246e-6, 0.395, 0.296), 24: (2.424e-6, 0.395, 0.296), 31: (6.845e-5, 0.130, 0.201), 32: (1.032e-5, 0.130, 0.201),
        33: (3.802e-5, 0.644, 0.312), 34: (1.537e-4, 0.170, 0.208), 35: (3.326e-4, 0.148, 0.215), 41: (7.649e-6, 0.682, 0.279),
        51: (1.588e-6, 1.154, 0.318), 52: (1.907e-6, 1.244, 0.335), 53: (2.485e-6, 1.196, 0.328), 54: (4.095e-6, 1.111, 0.316),
        55: (1.135e-5, 0.974, 0.309), 56: (4.365e-5, 1.089, 0.323), 57: (3.363e-6, 1.296, 0.322), 61: (7.537e-4, 0.499, 0.266)}
CHANNELS = sorted(PHOT)


def troe(k0, ki, fc):
    nc = 0.75 - 1.27 * math.log10(fc)
    f = 10.0 ** (math.log10(fc) / (1.0 + (math.log10(k0 / ki) / nc) ** 2))
    return k0 * ki * f / (k0 + ki)


def coefficients(T, H2O):
    out = {n: a * math.exp(e / T) for n, (a, e) in ARRHENIUS.items()}
    for n, (p0, pi_, fc) in TROE.items():
        k0 = p0[0] * M * (T / 300.0) ** p0[1] * math.exp(p0[2] / T)
        ki = pi_[0] * (T / 300.0) ** pi_[1] * math.exp(pi_[2] / T)
        if fc is None:
            fc = 0.17 * math.exp(-51.0 / T) + math.exp(-T / 204.0)
        out[n] = troe(k0, ki, fc)
    out["KALKOXY"], out["KALKPXY"] = 3.70e-14 * math.exp(-460.0 / T) * O2, 1.80e-14 * math.exp(-260.0 / T) * O2
    k0, ki = 1.7e-3 * M * math.exp(-11280.0 / T), 8.3e16 * math.exp(-13940.0 / T)
    out["KBPPN"] = k0 * ki * 0.36 / (k0 + ki)
    out["KMT05"] = 1.44e-13 * (1.0 + M / 4.2e19)
    out["KMT06"] = 1.0 + 1.40e-21 * math.exp(2200.0 / T) * H2O
    k1, k3, k4 = 2.40e-14 * math.exp(460.0 / T), 6.50e-34 * math.exp(1335.0 / T), 2.70e-17 * math.exp(2199.0 / T)
    out["KMT11"] = k1 + k3 * M / (1.0 + k3 * M / k4)
    out["KMT18"] = 9.5e-39 * O2 * math.exp(5270.0 / T) / (1.0 + 7.5e-29 * O2 * math.exp(5610.0 / T))
    out["M"], out["N2"], out["O2"] = M, N2, O2
    return out


def cosx_atchem(t, day=150.0, lat=51.51, lon=0.13):
    """cosine of the solar zenith angle at t seconds after midnight (AtChem2, Madronich 1993)"""
    th = 2.0 * math.pi * (day - 1.0) / 365.0
    dec = (0.006918 - 0.399912 * math.cos(th) + 0.070257 * math.sin(th) - 0.006758 * math.cos(2 * th) +
           0.000907 * math.sin(2 * th) - 0.002697 * math.cos(3 * th) + 0.001480 * math.sin(3 * th))
    eqt = (0.000075 + 0.001868 * math.cos(th) - 0.032077 * math.sin(th) - 0.014615 * math.cos(2 * th) -
           0.040849 * math.sin(2 * th))
    hour = (t % 86400.0) / 3600.0
    lha = math.pi * (hour / 12.0 - (1.0 + lon / 180.0)) + eqt
    la = math.radians(lat)
    return math.cos(lha) * math.cos(la) * math.cos(dec) + math.sin(la) * math.sin(dec)


def cosx_derwent(t, dec=23.79, lat=50.0):
    """cosine of the solar zenith angle of the plain Python evaluator (fixed declination and latitude)"""
    lha = (1.0 + (t % 86400.0) / 43200.0) * math.pi
    d, la = math.radians(dec), math.radians(lat)
    return math.cos(lha) * math.cos(la) * math.cos(d) + math.sin(la) * math.sin(d)


def photolysis(cosx):
    if cosx <= 0.0:
        return {k: 0.0 for k in PHOT}
    return {k: l * cosx ** m * math.exp(-n / cosx) for k, (l, m, n) in PHOT.items()}


def environment(T, RO2, H2O, t, backend):
    env = coefficients(T, H2O)
    env.update(TEMP=T, RO2=RO2, H2O=H2O)
    env["J"] = photolysis(cosx_derwent(t) if backend == "python" else cosx_atchem(t))
    return env
