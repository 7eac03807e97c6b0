"""Building and running real pyqlaw objects."""
import functools
import numpy as np
import pyqlaw
from pyqlaw import _qlaw as _q

# The symbolic derivation takes about a second per object and depends on nothing; build it once per process.
for _n in ("symbolic_qlaw_keplerian", "symbolic_qlaw_mee_with_a"):
    if hasattr(_q, _n) and not hasattr(getattr(_q, _n), "cache_info"):
        setattr(_q, _n, functools.lru_cache(None)(getattr(_q, _n)))

KINDS = ("mee_with_a", "keplerian")
FUNS = {"keplerian": pyqlaw.symbolic_qlaw_keplerian, "mee_with_a": pyqlaw.symbolic_qlaw_mee_with_a}
WIDE_KEP = dict(oe_min=[0.01, 1e-6, 1e-6, -1e3, -1e3, -1e9], oe_max=[1e3, 0.99, np.pi, 1e3, 1e3, 1e9])
WIDE_MEE = dict(oe_min=[0.01, -10, -10, -10, -10, -1e9], oe_max=[1e3, 10, 10, 10, 10, 1e9])


def wide(kind): return dict(WIDE_KEP if kind == "keplerian" else WIDE_MEE)


def build(kind="mee_with_a", **kw):
    kw.setdefault("verbosity", 0)
    return pyqlaw.QLaw(elements_type=kind, **kw)


def hist(p):
    """copies of everything recorded"""
    f = lambda x: np.array([np.asarray(v, float) for v in x], float)
    return dict(times=f(p.times), states=f(p.states), masses=f(p.masses), battery=f(p.battery),
                controls=f(p.controls).reshape(-1, 3), etas=f(p.etas).reshape(-1, 2), bounds=f(p.etas_bounds).reshape(-1, 2),
                Qs=f(p.Qs), dQdts=f(p.dQdts), exitcode=p.exitcode, converge=bool(p.converge))


HKEYS = ("times", "states", "masses", "battery", "controls", "etas", "bounds", "Qs", "dQdts", "exitcode", "converge")


def same(a, b, tol=0.0, keys=HKEYS, scale=None):
    """names of histories that differ"""
    out = []
    for k in keys:
        x, y = a[k], b[k]
        if isinstance(x, (bool, int)) or np.isscalar(x):
            if x != y: out.append("%s: %r != %r" % (k, x, y))
            continue
        if x.shape != y.shape:
            out.append("%s: shape %s != %s" % (k, x.shape, y.shape)); continue
        if x.size == 0: continue
        if not tol: ok = np.array_equal(x, y, equal_nan=True)
        else:
            ok = np.array_equal(np.isnan(x), np.isnan(y)) and bool(np.all(np.abs(np.nan_to_num(x-y)) <= tol*(1+np.maximum(np.abs(np.nan_to_num(x)), np.abs(np.nan_to_num(y))))))
        if not ok:
            j = int(np.argmax(np.abs(np.nan_to_num(x-y)).reshape(len(x), -1).max(axis=1)))
            out.append("%s differs, most at index %d: %s vs %s" % (k, j, x[j], y[j]))
    return out


class Zero:
    """a perturbation model that returns nothing"""
    def get_perturbations_RTN(self, t, oe, elements_type):
        return np.zeros(3)


class Field:
    """constant perturbing acceleration in the radial/transverse/normal frame"""
    def __init__(self, acc): self.acc = np.array(acc, float)
    def get_perturbations_RTN(self, t, oe, elements_type): return self.acc.copy()


def warm_run(kinds=KINDS, integrators=("rk4", "rkf45")):
    """compile and derive everything once before forking"""
    for kind in kinds:
        for it in integrators:
            p = build(kind, integrator=it, use_sundman=True)
            k0 = np.array([1.0, .1, .3, .2, .4, .5]); kT = np.array([1.2, .2, .4, .3, .5, 0.])
            if kind == "mee_with_a":
                from . import ref
                k0, kT = ref.kep2meea(k0), ref.kep2meea(kT)
            p.set_problem(k0, kT[:5], 1.0, 1e-3, 1e-3, 0.2, 0.1)
            p.solve(eta_a=0.1, eta_r=0.1)
