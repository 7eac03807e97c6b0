"""C13: orbit geometry helpers."""
import itertools
import numpy as np
import pyqlaw
from pyqlaw import _transformations as T_, _elements as E_
from .. import ref

LEVEL = "exploration"
RULE = ("every state of a lattice (elliptic and hyperbolic, all quadrants) through every helper, against vector formulas; every angle of a "
        "lattice over many turns through wrap and the rotations; all counted evaluations are non-trivial (distinct inputs, finite reference)")
BOUNDS = dict(quick="8 eccentricities x 6 inclinations x 8 x 8 x 8 angles x 2 mu", thorough="14 x 9 x 12 x 12 x 12 x 3; both: 4 x 4 shapes with 11 angles next to the axes or many turns away")
ASSUME = ["eccentricity at least 1e-3, inclination not in (0, 1e-4) nor 180 degrees", "argument of periapsis within 1e-6 of the line of nodes' round-off"]
NEED = dict(hyperbolic=100, wrap=100, coords=50, anomaly=100)
PI = np.pi
ANG = [0.0, .7, PI/2, 2.3, PI, 4.0, 3*PI/2, 5.8]
ANG2 = [0.0, .3, .7, 1.2, PI/2, 2.3, PI, 3.6, 4.0, 3*PI/2, 5.2, 5.8]
TINY = [0.0, 1e-9, -1e-6, 9e-5, -4e-3, PI+3e-5, PI/2-2e-6, -PI/2+1e-4, 2*PI-5e-5, 37.2, -51.3]


def cases(tier):
    th = tier == "thorough"
    Es = [1e-3, .1, .4, .8, .97, 1.01, 1.3, 2.5] if not th else [1e-3, .02, .1, .3, .5, .8, .97, .997, 1.002, 1.02, 1.1, 1.6, 4.0, 30.0]
    I = [0.0, 2e-4, .02, .9, PI/2, 2.4, 3.1] if not th else [0.0, 1.01e-4, 3e-4, 1e-3, .02, .5, .9, PI/2, 2.0, 2.4, 3.1]
    ang = ANG2 if th else ANG
    out = [dict(e=e, i=i, a=a, mu=mu, ang=ang) for e in Es for i in I for a, mu in (((1.3, 1.0), (24361.0, 398600.44)) + (((.4, .2),) if th else ()))]
    out += [dict(e=e, i=i, a=1.3, mu=1.0, ang=TINY) for e in (.02, .6, .97, 1.01) for i in (1.2e-4, .01, .9, PI/2-1e-7, 3.1)]
    out += [dict(misc="wrap"), dict(misc="rot")] + [dict(misc="coords", e=e, mu=mu, th=th) for e in (0.0, .1, .6, .95) for mu in (1.0, 3.3)]
    out += [dict(misc="anom", e=e, th=th) for e in (0.0, 1e-6, .01, .2, .5, .7, .9, .99)]
    return out


def warm():
    s = ref.kep2rv(np.array([1.1, .2, .3, .4, .5, .6]), 1.0)
    for f in (pyqlaw.get_semiMajorAxis, pyqlaw.get_eccentricity, pyqlaw.get_omega, pyqlaw.get_trueanom, pyqlaw.get_period, pyqlaw.sv2kep): f(s, 1.0)
    pyqlaw.get_inclination(s); pyqlaw.get_raan(s)
    pyqlaw.get_orbit_coordinates(np.array([1.1, .2, .3, .4, .5, .6]), 1.0, 5)
    pyqlaw.ta2ea(.3, .1); pyqlaw.mee2ea(np.array([1., .1, .1, .1, .1, .1]))


def run_case(c, r):
    if "misc" in c: return globals()["m_" + c["misc"]](c, r)
    e, i, mu, a = c["e"], c["i"], c["mu"], c["a"]
    ell = e < 1
    if not ell: a = -a
    for o, w, th in itertools.product(c["ang"], c["ang"], c["ang"]):
        if not ell and 1+e*np.cos(th) < .1: continue
        k = np.array([a, e, i, o, w, th])
        s = ref.kep2rv(k, mu)
        if not ell: r.tag("hyperbolic")
        r.n += 1; r.nt += 1
        S = s.copy()
        hv = ref.cross(s[:3], s[3:]); ev = ref.cross(s[3:], hv)/mu - s[:3]/ref.norm(s[:3])
        got = dict(a=pyqlaw.get_semiMajorAxis(s, mu), ev=pyqlaw.get_eccentricity(s, mu), i=pyqlaw.get_inclination(s), raan=pyqlaw.get_raan(s),
                   w=pyqlaw.get_omega(s, mu), th=pyqlaw.get_trueanom(s, mu), T=pyqlaw.get_period(s, mu), kep=pyqlaw.sv2kep(s, mu))
        if not np.array_equal(S, s): r.bad("a helper modified its argument", orbit=k)
        te = 1e-13/e*max(1, 1/abs(1-e))
        tw = 3e-7 + np.sqrt(1e-15/e)*3 + (1e-13/np.sin(i) if i else 0)
        oo = o if i else 0.0
        ww = w if i else o+w
        chk = [("semi-major axis", abs(got["a"]/a-1), 1e-10/abs(1-e)), ("eccentricity vector", np.linalg.norm(got["ev"]-ev), 1e-12),
               ("eccentricity", abs(np.linalg.norm(got["ev"])-e), 1e-11/abs(1-e)), ("inclination", abs(got["i"]-i), 2e-8 if i == 0 or i > 3 or i < .1 else 1e-11),
               ("node", abs(ref.angdiff(got["raan"], oo)), 1e-10), ("argument of periapsis", abs(ref.angdiff(got["w"], ww)), tw),
               ("true anomaly", abs(ref.angdiff(got["th"], th)), te*10+1e-11),
               ("period", abs(got["T"]/(2*PI*np.sqrt(a**3/mu))-1) if ell else (0 if got["T"] < 0 else 1), 1e-9/abs(1-e))]
        kk = got["kep"]
        chk += [("elements of state", max(abs(kk[0]/got["a"]-1), abs(kk[1]-np.linalg.norm(got["ev"])), abs(kk[2]-got["i"]), abs(kk[3]-got["raan"]), abs(kk[4]-got["w"]), abs(kk[5]-got["th"])), 1e-12)]
        for name, err, tol in chk:
            if not err <= tol: r.bad("%s of a state is wrong" % name, key=name, orbit=k, mu=mu, err=err, tol=tol, got=got); return
    r.sample = dict(orbit=[a, e, i], mu=mu)


def m_wrap(c, r):
    base = [0.0, 1e-9, .3, 1.0, PI/2, 2.0, 3.0, 3.14, -1e-9, -.3, -PI/2, -2.0, -3.14]
    vals = [b+n*ref.TAU for b in base for n in (-200, -7, -3, -2, -1, 0, 1, 2, 3, 5, 11, 300)] + [PI, -PI, 3*PI]
    for v in vals:
        y = T_.wrap(v)
        r.n += 1; r.nt += 1; r.tag("wrap")
        if not (-PI-1e-12 <= y <= PI+1e-12 and abs(np.exp(1j*y)-np.exp(1j*v)) < 1e-10): r.bad("wrapped angle is not equivalent or not within half a turn", key="wrap", angle=v, got=y)
    arr = T_.wrap(np.array(vals))
    if not np.allclose(arr, [T_.wrap(v) for v in vals], atol=1e-12): r.bad("wrap of an array differs from wrap of its entries", key="wrap")


def m_rot(c, r):
    for j, name in enumerate(("rotmat1", "rotmat2", "rotmat3")):
        for v in [x*PI/12 for x in range(-30, 31)] + [.1234, 100.0]:
            M = getattr(T_, name)(v)
            r.n += 1; r.nt += 1
            ax = np.zeros(3); ax[j] = 1
            b = np.zeros(3); b[(j+1) % 3] = 1
            want = np.cos(v)*b - np.sin(v)*np.roll(b, 1)      # frame rotation: coordinates of the next axis
            if np.abs(M @ M.T - np.eye(3)).max() > 1e-13 or abs(np.linalg.det(M)-1) > 1e-13 or np.abs(M @ ax-ax).max() > 1e-13 or np.abs(M @ b-want).max() > 1e-13:
                r.bad("%s is not the frame rotation about axis %d" % (name, j+1), key=name, angle=v, got=M)


def m_coords(c, r):
    e, mu = c["e"], c["mu"]
    for a, i, o, w, n in itertools.product((1.0, 2.7), (0.0, .5, 2.2), (0.0, 1.3, 4.0), (0.0, 2.2, 5.0), (2, 3, 7, 200, None, 361, 1500) + ((721, 4001) if c["th"] else ())):
        if n and n > 300 and (w == 5.0 or o == 4.0): continue
        k = np.array([a, e, i, o, w, .77])
        K = k.copy()
        co = pyqlaw.get_orbit_coordinates(k, mu) if n is None else pyqlaw.get_orbit_coordinates(k, mu, n)
        m = co.shape[1]
        r.n += 1; r.nt += 1; r.tag("coords")
        if not np.array_equal(k, K): r.bad("sampling an orbit modified its elements", key="coords")
        if n is not None and co.shape != (6, n): r.bad("sampled orbit has the wrong number of points", key="coords", got=co.shape, n=n); continue
        for j in range(m):
            want = ref.kep2rv(np.array([a, e, i, o, w, ref.TAU*j/(m-1)]), mu)
            if np.abs(co[:3, j]-want[:3]).max() > 1e-11*a/(1-e) or np.abs(co[3:, j]-want[3:]).max() > 1e-11*np.sqrt(mu/a)/(1-e):
                r.bad("sampled orbit is not the orbit in equal steps of true anomaly over one turn from periapsis", key="coords", orbit=k, j=j, n=n, got=co[:, j], want=want); break


def m_anom(c, r):
    e = c["e"]
    ths = [x*PI/16 for x in range(-64, 65)] + [3.1, 3.14159, -3.1]
    for th in ths:
        E = pyqlaw.ta2ea(th, e)
        anom(E, th, e, r, "ta2ea")
    if e == 0: return
    for lp, a in itertools.product([x*PI/6 for x in range(-7, 13)] + [.5], (1.0, 3.0)):
        for th in ths[::3]:
            x = np.array([a, e*np.cos(lp), e*np.sin(lp), .1, -.2, lp+th])
            anom(pyqlaw.mee2ea(x), th, e, r, "mee2ea", lp=lp)


def anom(E, th, e, r, name, **k):
    r.n += 1; r.nt += 1; r.tag("anomaly")
    # two-body geometry: r = a(1 - e cos E) and the position (cos E - e, sqrt(1-e^2) sin E) lies at the true anomaly
    x, y = np.cos(E)-e, np.sqrt(1-e*e)*np.sin(E)
    rr = (1-e*e)/(1+e*np.cos(th))
    err = np.hypot(x-rr*np.cos(th), y-rr*np.sin(th))
    if not err <= 1e-9/(1-e): r.bad("eccentric anomaly does not belong to the true anomaly", key=name, fn=name, E=E, th=th, e=e, **k)
