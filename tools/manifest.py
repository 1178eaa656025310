"""writes MANIFEST.json from the table below (run by hand when a check is added)"""
import json
CHECKS = {
"C01":("bounded exhaustive enumeration of mechanism texts x layouts x parse histories through the real parser, compared state by state with a reference network model","All reaction alphabets/layouts in mc/nets.py and checks/c01.py up to the stated depth; trusts the reference model in mc/kpp.py."),
"C02":("exhaustive enumeration of the rate-expression grammar to a depth bound, each translated by the real converters, emitted, executed in all three backends and compared with an independent evaluator","All expressions of the bounded grammar x an environment lattice; Fortran compared at single-precision-literal tolerance."),
"C03":("exhaustive sweep of the emitted evaluators over every time-of-day step of several days x temperature x water lattice against an independently written MCM model","Lattice of times/temperatures; values between lattice points are not covered."),
"C04":("bounded exhaustive enumeration of reaction networks through the real generators; emitted Numba/Fortran/sparse code executed and compared with the reference monomial","All networks to the depth bound; prime-valued concentrations separate monomials."),
"C05":("bounded exhaustive enumeration of reaction networks through the real generators; emitted Numba/Fortran/sparse code executed and compared with reference stoichiometry","All networks to the depth bound."),
"C06":("bounded exhaustive enumeration of reaction networks through the real generators; emitted Jacobians executed and compared with the analytic derivative of the reference model","All networks to the depth bound."),
"C07":("explicit-state exploration of all interleavings (partial-order reduced) of the SINGLE sections of the really emitted OpenMP code for every core count, plus compiled -fopenmp executions bound to it","Interleavings at statement granularity under sequential consistency; conflicts decided from read/write sets of the emitted statements."),
"C08":("exhaustive enumeration of species subsets/orders through the real index writer, files reloaded, compared with an independent MCM RO2 list","All single names, all subsets of a small pool in every order, full list."),
"C09":("stateless exploration of all scripted solver behaviours x batch/simulation lengths on the real drivers with a stub solver; every call compared with a reference driver model","Assimulo is not installed: the solver is an environment process that makes every bounded sequence of calls."),
"C10":("breadth-first exploration of histories of parse/generate/run/reuse steps over several mechanisms on the real programs in scratch directories","Histories to the stated depth."),
"C11":("exhaustive lattice of bin/species/included-set/state configurations through the really emitted and compiled partitioning kernel, compared with a reference condensation model","Finite lattice of concentrations and properties."),
"C12":("explicit-state exploration of all interleavings of the really emitted partitioning loop body under OpenMP data-sharing semantics (interpreted), cross-validated by compiled serial and -fopenmp executions","Statement-granularity interleavings, sequential consistency."),
"C13":("stateless exploration of scripted solver behaviours on the real aerosol drivers and programs with stub solver and property package, compared with a reference model","Assimulo/UManSysProp are not installed: stubs."),
"C14":("exhaustive lattice of bin counts, totals, medians, widths and ranges through the real function, compared with an independent lognormal","Finite lattice."),
"C16":("bounded exhaustive enumeration of compositions x bins x histories of output steps through the real plotting functions and drivers with a scripted solver; the finished matplotlib figures are read back and compared with a reference","Finite alphabet of amounts (zero, two positive, slightly negative); Agg canvas."),
"C15":("exhaustive enumeration of species orders, structure-file contents (incl. missing entries) and cut-offs through the real mapping/property code with a stub property package","UManSysProp is not installed: a stub with distinct per-structure answers."),
}
NA = {}
import os,sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
have=[k for k in CHECKS if os.path.exists("checks/%s.py"%k.lower())]
m=dict(version=1,setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, numba'",
 checks=[dict(property=k,quick_cmd="/opt/venv/bin/python run.py %s"%k,thorough_cmd="/opt/venv/bin/python run.py %s --thorough"%k,
   evidence_file="evidence/%s.json"%k,technique=CHECKS[k][0],level="model_checking",level_note=CHECKS[k][1]) for k in have],
 not_applicable=[dict(property=k,reason=NA.get(k,"check still being built")) for k in CHECKS if k not in have])
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
