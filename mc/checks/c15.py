"""C15: the equations of motion are Gauss's equations."""
import itertools
import numpy as np
import pyqlaw
from pyqlaw import _eom as M_
from .. import ref
from ..prob import FUNS
from .c06 import _funs, args, SPECIAL

LEVEL = "exploration"
RULE = ("every orbit of the lattice x element set x gravitational parameter x (thrust, perturbation) pair of accelerations, against the "
        "derivative of the elements along Newtonian motion (complex step); non-trivial = acceleration non-zero")
BOUNDS = dict(quick="e 3, i 4, node 4, periapsis 5, anomaly 6, mu 2 values; 8 acceleration pairs; 3 element sets; 6 extreme orbits (e from 1e-4 to 0.98, i from 1e-3 to 3.14, three sizes) with three sizes of acceleration",
              thorough="e 5, i 6, node 6, periapsis 8, anomaly 10, mu 3 values; 8 acceleration pairs; 3 element sets")
ASSUME = ["eccentricity and sine of inclination non-zero for Keplerian elements"]
NEED = {}
ACC = [((0, 0, 0), (0, 0, 0)), ((1, 0, 0), (0, 0, 0)), ((0, 1, 0), (0, 0, 0)), ((0, 0, 1), (0, 0, 0)), ((0, 0, 0), (1, 0, 0)), ((0, 0, 0), (0, -1, 0)),
       ((0, 0, 0), (0, 0, 2)), ((.3, -.5, .7), (-.2, .4, .9))]


def cases(tier):
    th = tier == "thorough"
    Es = [.02, .3, .8] if not th else [.005, .1, .3, .6, .9]
    I = [.05, .7, 1.8, 2.9] if not th else [.01, .3, .9, 1.6, 2.2, 3.0]
    small = [dict(e=e, i=i, mu=mu, kind=k, th=False, a=a, small=True) for e, i, a, mu in ((1e-4, .7, 1.4, 1.0), (2e-3, 2.9, 7e3, 4e5), (.4, 1e-3, 1e-3, 1.0), (1e-3, 2e-3, 1.0, 3.3), (.98, 1.2, 20.0, .01), (.3, 3.14, 1.0, 1.0))
             for k in ("keplerian", "mee", "mee_with_a")]
    return small + [dict(e=e, i=i, mu=mu, kind=k, th=th) for e in Es for i in I for mu in ((1.0, 3.3) if not th else (1.0, .2, 398600.44)) for k in ("keplerian", "mee", "mee_with_a")] + \
        [dict(special=list(s), mu=mu, kind=k) for s in SPECIAL for mu in (1.0, 2.2) for k in ("mee", "mee_with_a")]


def warm():
    for k in FUNS: _funs(k)
    for kind in ("keplerian", "mee", "mee_with_a"):
        x = ref.to_kind(kind, [1.2, .2, .3, .4, .5, .6])
        rhs(kind, x, 1.0, np.zeros(3), np.zeros(3))


def rhs(kind, x, mu, u, p):
    f = {"keplerian": "eom_kep_gauss", "mee": "eom_mee_gauss", "mee_with_a": "eom_mee_with_a_gauss"}[kind]
    f = getattr(pyqlaw, f, None) or getattr(M_, f)
    if kind == "mee": psi = _funs("mee_with_a")[1](*args(mu, 1e-3, np.array([1., .1, .1, .1, .1, .1]), np.array([1.2, .1, .2, .1, .2]), {}, [1]*5))
    else: psi = _funs(kind)[1](*args(mu, 1e-3, x, ref.to_kind(kind, [1.4, .3, .5, .6, .7, 0]), {}, [1]*5))
    return f(0.3, x, (mu, u, psi[0], psi[1], psi[2], p))


def run_case(c, r):
    kind, mu = c["kind"], c["mu"]
    if "special" in c:
        xs = [np.array(c["special"] + [L]) for L in (-3.0, 0.0, 1.0, np.pi/2, 2.5, 4.0, 5.5, 9.0)]
    else:
        th = c["th"]
        O = [.4, 2.1, 3.9, 5.6] if not th else [-.5, .4, 1.3, 2.1, 3.9, 5.6]
        W = [.3, 1.2, 2.2, 3.5, 5.2] if not th else [.1, .9, np.pi/2, 2.2, np.pi, 3.8, 4.9, 6.1]
        TH = [0.0, 1.1, 2.2, np.pi, 4.0, 5.5] if not th else [0., .5, 1.1, np.pi/2, 2.2, np.pi, 3.5, 4.3, 5.1, 5.9]
        xs = []
        for o, w, t in itertools.product(O, W, TH):
            a = c.get("a", 1.4)
            x = ref.to_kind(kind, [a, c["e"], c["i"], o, w, t])
            if kind == "mee": x[0] = a*(1-c["e"]**2)
            xs.append(x)
    n = 0
    for x in xs:
        B, D = ref.gauss(kind, x, mu)
        for u, p in ACC:
            f = mu/c["a"]**2*(1e-2, 3.0, 1e-9)[n % 3] if "small" in c else 1e-2
            n += 1
            u, p = np.array(u, float)*f, np.array(p, float)*f
            X, U, P = x.copy(), u.copy(), p.copy()
            y = rhs(kind, x, mu, u, p)
            want = B @ (u+p) + D
            r.n += 1; r.nt += bool(np.any(u+p))
            if not (np.array_equal(X, x) and np.array_equal(U, u) and np.array_equal(P, p)): r.bad("equations of motion modified an argument", key="args")
            sc = np.abs(D[5]) + np.abs(B).max()*1e-2
            if "small" in c: sc = (np.abs(D) + np.abs(B).max(axis=1)*np.abs(u+p).max())*(10 if c["e"] < .9 else 1e3)
            if not np.all(np.abs(y-want) <= 1e-9*sc):
                r.bad("%s: rate of change is not Gauss's" % kind, key=kind, state=x, mu=mu, thrust=u, perturbation=p, got=y, want=want); return
    r.sample = dict(kind=kind, mu=mu, first_state=xs[0], states=len(xs))
