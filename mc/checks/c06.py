"""C06: the steering law is the steepest descent of the documented quotient."""
import itertools
import numpy as np
import pyqlaw
from .. import ref, features
from ..prob import FUNS

LEVEL = "exploration"
RULE = ("case = element set x orbit of the lattice (shape, orientation in every quadrant, phase incl. periapsis/apoapsis) x law "
        "setting (target, weights, parameters); non-trivial = the gradient does not vanish and the reference direction is determined")
BOUNDS = dict(quick="a 1, e 3, i 3, node 4, periapsis 4, anomaly 5 values; 14 law settings; 6 special equinoctial orbits",
              thorough="a 3, e 4, i 5, node 6, periapsis 6, anomaly 8 values; 14 law settings x 3 gravitational parameters")
ASSUME = ["quotient differentiable at the state: eccentricity and sine of Keplerian inclination/periapsis argument not exactly zero, "
          "angle errors not exactly half a turn"]
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = dict(retro_phase=50, coincident=50, penalty=50)

LAW = [  # target offsets as factor/offset on the current orbit or absolute; weights; parameters
    dict(T=(1.5, .1, .8, 1.0, 2.0), w=(1, 1, 1, 1, 1), p={}),
    dict(T=(.7, .5, .2, 4.0, 5.5), w=(1, 1, 1, 1, 1), p={}),
    dict(T=(1.2, .3, 1.2, 0.1, 3.0), w=(1, 0, 0, 0, 0), p=dict(wp=0.0)),
    dict(T=(1.2, .25, 1.2, 0.1, 3.0), w=(0, 1, 0, 0, 0), p=dict(wp=0.0)),
    dict(T=(1.2, .25, 1.2, 0.1, 3.0), w=(0, 0, 1, 0, 0), p=dict(wp=0.0)),
    dict(T=(1.2, .25, 1.2, 0.1, 3.0), w=(0, 0, 0, 1, 0), p=dict(wp=0.0)),
    dict(T=(1.2, .25, 1.2, 0.1, 3.0), w=(0, 0, 0, 0, 1), p=dict(wp=0.0)),
    dict(T=(2.5, .05, .4, 2.2, 1.0), w=(3, .5, 2, 0, 1), p=dict(rpmin=.9, k=2.0, wp=3.0)),
    dict(T=(.6, .4, 1.4, 3.3, 4.4), w=(1, 2, .1, 4, .3), p=dict(m=2.0, n=3.0, r=1.5, b=.3)),
    dict(T=("a", .2, .5, 1.5, .7), w=(1, 1, 1, 1, 1), p={}),
    dict(T=(1.3, "e", "i", 1.5, .7), w=(1, 1, 1, 1, 1), p={}),
    dict(T=(1.3, .2, .5, "O", .7), w=(1, 1, 1, 1, 1), p={}),
    dict(T=(1.3, .2, .5, 1.7, "w"), w=(1, 1, 1, 1, 1), p=dict(n=2.0)),
    dict(T=(.9, .2, .5, "O", "w"), w=(1, 1, 1, 1, 1), p=dict(n=3.0, k=100.0, rpmin=.5)),
]
SPECIAL = [  # exact equinoctial coordinates: periapsis longitude exactly at 90, 180, 270 degrees, equatorial, ...
    (1.0, 0.0, .2, .1, .2), (1.1, 0.0, -.3, -.1, .4), (1.2, -.3, 0.0, .2, -.2), (.9, -.1, -.4, 0.0, 0.0), (1.4, .2, 0.0, -.3, 0.0), (1.0, -.2, .1, 0.0, .5)]


def kept(k, T):
    o = dict(a=k[0], e=k[1], i=k[2], O=k[3], w=k[4])
    return np.array([o[t] if isinstance(t, str) else t for t in T] + [0.0])


def _cases(tier):
    th = tier == "thorough"
    A = [1.3] if not th else [.5, 1.0, 7.0]
    Es = [.02, .3, .7] if not th else [.005, .1, .4, .85]
    I = [.05, .7, 1.9] if not th else [.01, .4, 1.0, 1.9, 3.0]
    O = [.4, 2.1, 3.9, 5.6] if not th else [-.9, .4, 1.2, 2.4, 3.9, 5.6]
    W = [.3, 1.9, 3.5, 5.2] if not th else [.3, 1.57, 2.5, 3.5, 4.4, 5.9]
    MU = [1.0] if not th else [1.0, .37, 3.986]
    out = [dict(kind="keplerian", cse=True), dict(kind="mee_with_a", cse=True)]
    for kind in ("mee_with_a", "keplerian"):
        for mu in MU:
            for a, e, i, o in itertools.product(A, Es, I, O):
                out.append(dict(kind=kind, mu=mu, orbits=[[a, e, i, o, w] for w in W], th=th))
    for s in SPECIAL:
        out.append(dict(kind="mee_with_a", mu=1.3, special=list(s), th=th))
    return out


def warm():
    for kind in FUNS: _funs(kind)
    f = _funs("mee_with_a")
    pyqlaw.lyapunov_control_angles(f[0], 1.0, 1e-3, np.array([1., .1, .1, .1, .1, .1]), np.array([1.5, .2, .1, .2, .2]), .1, 3., 4., 2., .01, 1., 1., [1.]*5)


_c = {}
def _funs(kind, cse=True):
    if (kind, cse) not in _c: _c[kind, cse] = FUNS[kind]() if cse else FUNS[kind](cse=False)
    return _c[kind, cse]


def args(mu, acc, x, xT, par, w):
    P = dict(ref.DEFPAR, **par)
    return (mu, acc, x, xT[:5], P["rpmin"], P["m"], P["n"], P["r"], P["b"], P["k"], P["wp"], list(w))


def one(kind, mu, x, xT, law, r, B, funs, where):
    acc = 1e-3 * mu
    P = dict(ref.DEFPAR, **law["p"]); w = np.array(law["w"], float)
    a = args(mu, acc, x, xT, law["p"], w)
    al, be, u, psi, q, rate = pyqlaw.lyapunov_control_angles(funs[0], *a)
    g = ref.grad(kind, x, xT, w, mu, acc, P)
    ud, rr, D = ref.steer(kind, x, xT, w, mu, acc, P, B, g)
    mag = np.linalg.norm(np.abs(B[:5]).T @ np.abs(g))
    r.n += 1
    if not np.isfinite(mag) or np.linalg.norm(D) <= 1e-9*mag or mag == 0: return
    if all(x[j] == xT[j] or w[j] == 0 for j in range(5)): return        # at the target
    cond = mag/np.linalg.norm(D)
    r.nt += 1
    tol = 1e-8 + 3e-10*cond
    d = ref.dir_of(al, be)
    bad = lambda what, **k: r.bad("%s: %s" % (kind, what), key=what, state=x, target=xT[:5], law=law, mu=mu, where=where, **k)
    if not np.all(np.isfinite([al, be, q, rate])): return bad("steering is not finite", alpha=al, beta=be, q=q, rate=rate)
    if np.linalg.norm(d-ud) > tol: bad("angles are not the direction of steepest descent", got=d, want=ud, cond=cond)
    if abs(np.linalg.norm(u)-1) > 1e-12: bad("unit vector is not of unit length", u=u)
    if np.linalg.norm(np.asarray(u)+d) > 1e-9: bad("unit vector and angles disagree", u=u, d=d)
    if abs(abs(rate)-rr) > tol*rr: bad("rate of the quotient is wrong", got=rate, want=rr)
    if not -np.pi-1e-12 <= al <= np.pi+1e-12 or abs(be) > np.pi/2+1e-12: bad("angles out of range", alpha=al, beta=be)
    ps = np.array([np.array(c, float) for c in psi])
    if np.abs(ps - B[:5].T).max() > 1e-9*max(1, np.abs(B).max()): bad("control columns are not Gauss's", got=ps, want=B[:5].T)
    ps2 = np.array([np.array(c, float) for c in funs[1](*a)])
    if np.abs(ps2-ps).max() > 1e-11*max(1, np.abs(ps).max()): bad("separate control columns disagree", got=ps2, want=ps)
    raw, _, _, dq = funs[0](*a)
    gs = np.abs(g).max()
    if np.abs(np.array(dq, float)-g).max() > 1e-8*gs: bad("gradient is wrong", got=dq, want=g)
    if np.abs(np.array(funs[2](*a), float)-np.array(dq, float)).max() > 1e-10*gs: bad("separate gradient disagrees", got=funs[2](*a), want=dq)
    rt = float(funs[3](*a))
    if abs(abs(rt)-rr) > tol*rr or rt < 0 and rate > 0: bad("separate rate disagrees", got=rt, want=rr)


def cases(tier): return list(_cases(tier)) + features.cases(tier)


def run_case(c, r):
    if "feat" in c: return features.play(c, r, features.steering)
    kind = c["kind"]
    if c.get("cse"):
        f1, f0 = _funs(kind), _funs(kind, False)
        for j, (e, i, o, w, th) in enumerate(itertools.product((.1, .6), (.3, 2.0), (.4, 4.0), (1.9, 5.2), (.2, 3.6))):
            k = np.array([1.3, e, i, o, w, th]); x = ref.to_kind(kind, k)
            for law in LAW[::3]:
                xT = ref.to_kind(kind, kept(k, law["T"]))
                a = args(1.0, 1e-3, x, xT, law["p"], law["w"])
                r.n += 1; r.nt += 1
                for n, fa, fb in zip(("control", "columns", "gradient", "rate"), f1, f0):
                    va, vb = flat(fa(*a)), flat(fb(*a))
                    if np.abs(va-vb).max() > 1e-8*max(1e-300, np.abs(va).max()):
                        r.bad("%s: %s differs without common subexpression elimination" % (kind, n), key="cse", a=va, b=vb)
        return
    mu = c["mu"]; funs = _funs(kind)
    TH = [0.0, 1.1, 2.6, np.pi, 4.4] if not c["th"] else [0.0, .6, 1.6, 2.6, np.pi, 3.6, 4.7, 5.9]
    if "special" in c:
        for L in (-8.0, 0.0, .5, 1.5707963267948966, 2.7, 4.0, 5.5, 13.0):
            x = np.array(c["special"] + [L]); B, _ = ref.gauss(kind, x, mu)
            for law in LAW[:9]:
                one(kind, mu, x, ref.kep2meea(kept([1.0]*6, law["T"])), law, r, B, funs, "special")
        return
    for orb in c["orbits"]:
        for th in TH:
            k = np.array(orb + [th]); x = ref.to_kind(kind, k)
            B, _ = ref.gauss(kind, x, mu)
            for law in LAW:
                kT = kept(k, law["T"])
                xT = ref.to_kind(kind, kT)
                if kind == "mee_with_a" and "O" in law["T"] and kT[2] == 0: continue
                if th > 3: r.tag("retro_phase")
                if any(isinstance(t, str) for t in law["T"]): r.tag("coincident")
                if law["p"].get("wp", 1) != 0: r.tag("penalty")
                one(kind, mu, x, xT, law, r, B, funs, "lattice")
    r.sample = dict(kind=kind, orbit=c["orbits"][0], laws=len(LAW))


def flat(v):
    out = []
    def go(x):
        if isinstance(x, (list, tuple, np.ndarray)):
            for y in x: go(y)
        else: out.append(float(x))
    go(v)
    return np.array(out)
