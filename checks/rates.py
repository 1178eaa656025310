"""shared driver of C02/C03: a list of rate expressions -> real parser, converters, writers -> executed evaluators"""
import copy

import numpy as np

from mc import backends, core, env, kpp, mcm


def mechanism(exprs, style=None):
    """one reaction per expression; reactants differ so nothing can be shared"""
    return kpp.text([kpp.Rxn(["A%d" % i], ["B%d" % i], e) for i, e in enumerate(exprs)], style)


class Unit(object):
    """one generated set of evaluators"""

    def __init__(self, exprs, text=None):
        self.exprs, self.text = exprs, text or mechanism(exprs)

    def generate(self, batch, openmp=False):
        P, C = env.parse_mod(), env.conv_mod()
        self.err = {}
        n = len(self.exprs)
        self.n = n

        def rates():
            return backends.parse(self.text)["rate_dict"]
        with core.quiet():
            try:
                P.write_rate_file("m", C.convert_rate_mcm(rates()))
                ns = {}
                with open("Rate_coefficients.py") as f:
                    exec(compile(f.read(), "Rate_coefficients.py", "exec"), ns)
                self.py = ns["evaluate_rates"]
            except Exception:
                self.err["python"] = core.short_exc()
            try:
                P.write_rate_file_numba("m", C.convert_rate_mcm_numba(rates()))
                self.nb = backends.exec_numba("Rate_coefficients_numba.py")["evaluate_rates"]
            except Exception:
                self.err["numba"] = core.short_exc()
            try:
                P.write_rate_file_fortran("m", C.convert_rate_mcm_fortran(rates()), openmp)
                self.fb, self.nm = batch, batch.add("Rate_coefficients.f90")
            except Exception:
                self.err["fortran"] = core.short_exc()

    def run(self, backend, T, RO2, H2O, t):
        got = self._run(backend, T, RO2, H2O, t)
        return got if len(got) == self.n else np.concatenate([got, np.full(self.n, np.nan)])[:self.n]

    def _run(self, backend, T, RO2, H2O, t):
        with np.errstate(all="ignore"):
            if backend == "python":
                return np.array(self.py(t, RO2, H2O, T), dtype=float)
            if backend == "numba":
                return np.array(self.nb(t, RO2, H2O, T, np.zeros(self.n), np.zeros(63)), dtype=float)
            out = np.full(self.n, np.nan)
            self.fb.call(self.nm, RO2, H2O, T, t, out)
            return out


BACKENDS = ("python", "numba", "fortran")
