"""Import the code under test from the working tree of /repo with its missing third parties stubbed."""
import os
import sys
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("NUMBA_OPT", "0")
os.environ["OMP_NUM_THREADS"] = "1"      # the OpenMP checks set their own thread counts
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
for p in ("/opt/vp",):
    if p not in sys.path:
        sys.path.insert(0, p)
import pybox_compat  # noqa: E402,F401  (open(...,'rU'), ragged numpy.save, import pybel)

from . import core  # noqa: E402

_mods = {}


def module(relpath, name=None, fresh=False, tree=None):
    """load /repo/<relpath> as a module from source (or from the given syntax tree of it)"""
    import importlib.util
    key = (relpath, name)
    if not fresh and key in _mods:
        return _mods[key]
    path = os.path.join(core.REPO, relpath)
    nm = name or "repo_" + relpath.replace("/", "_")[:-3]
    spec = importlib.util.spec_from_file_location(nm, path)
    m = importlib.util.module_from_spec(spec)
    here = [os.path.dirname(path), core.REPO, os.path.join(core.REPO, "Aerosol")]
    if fresh or name is None:       # a neighbour of the same name in another folder is another module
        for k, v in list(sys.modules.items()):
            f = getattr(v, "__file__", None)
            if f and "." not in k and not k.startswith("repo_") and f.startswith(core.REPO + os.sep) and os.path.dirname(f) not in here:
                del sys.modules[k]
    old = [p for p in sys.path if not p.startswith(core.REPO + os.sep) and p != core.REPO]
    sys.path[:] = here + old
    sys.modules[nm] = m
    try:
        with core.quiet():
            if tree is None:
                spec.loader.exec_module(m)
            else:
                exec(compile(tree, path, "exec"), m.__dict__)
    finally:
        sys.path[:] = old + here        # what functions import when they run
    if tree is None:
        _mods[key] = m
    return m


def parse_mod():
    return module("Parse_eqn_file.py")


def conv_mod():
    return module("rate_coeff_conversion.py")
