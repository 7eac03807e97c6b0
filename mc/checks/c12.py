"""C12: conversions between representations preserve the orbit, along every path of conversions."""
import itertools
import numpy as np
import pyqlaw
from pyqlaw import _elements as E_
from .. import ref

LEVEL = "model_checking"
RULE = ("breadth-first exploration of the conversion graph (nodes: Cartesian, Keplerian, equinoctial, equinoctial with a) from every "
        "orbit of the lattice and every representation, all paths up to the given length; state = (orbit, representation, path), "
        "invariant = the representation denotes the original position and velocity (reference formulas) and is finite")
BOUNDS = dict(quick="7 eccentricities, 6 inclinations, 8 x 8 node/periapsis angles incl. 0, 90, 180, 270 deg, 8 anomalies, 2 mu; and 3 x 5 shapes with 11 angles within 1e-9 to 4e-3 of the axes or many turns away; paths of length 3",
              thorough="9 eccentricities, 9 inclinations, 12 x 12 angles, 12 anomalies, 3 mu; and 7 x 8 shapes with the 11 angles; paths of length 4")
ASSUME = ["inclination below 180 degrees, from Cartesian states to about the square root of rounding over its root; eccentricity at least 1e-3 where a Cartesian state is converted",
          "conversions from Cartesian states may lose half the digits where periapsis is on the line of nodes"]
NEED = dict(equatorial=100, nodal=100, retrograde=100)
PI = np.pi
ANG = [0.0, .7, PI/2, 2.3, PI, 4.0, 3*PI/2, 5.8]
ANG2 = [0.0, -.4, .7, 1.2, PI/2, 2.3, PI, 4.0, 3*PI/2, 5.2, 5.8, 7.5]

TINY = [0.0, 1e-9, -1e-6, 9e-5, -4e-3, PI+3e-5, PI/2-2e-6, -PI/2+1e-4, 2*PI-5e-5, 37.2, -51.3]       # just off the axes, and many turns away


def fn(n): return getattr(pyqlaw, n, None) or getattr(E_, n)


def edges(mu):
    f = dict((n, fn(n)) for n in ("kep2sv", "sv2kep", "kep2mee", "mee2kep", "kep2mee_with_a", "mee_with_a2kep", "mee2mee_with_a", "mee_with_a2mee", "mee_with_a2sv"))
    return {
        "kep": [("sv", lambda x: f["kep2sv"](x, mu)), ("mee", f["kep2mee"]), ("meea", f["kep2mee_with_a"])],
        "sv": [("kep", lambda x: f["sv2kep"](x, mu))],
        "mee": [("kep", f["mee2kep"]), ("meea", f["mee2mee_with_a"])],
        "meea": [("kep", f["mee_with_a2kep"]), ("mee", f["mee_with_a2mee"]), ("sv", lambda x: f["mee_with_a2sv"](x, mu))],
    }


def rv_of(rep, x, mu):
    if rep == "sv": return x
    if rep == "kep": return ref.kep2rv(x, mu)
    return ref.mee2rv(x, mu) if rep == "mee" else ref.meea2rv(x, mu)


def start(rep, k, mu):
    if rep == "kep": return np.array(k, float)
    if rep == "sv": return ref.kep2rv(k, mu)
    x = ref.kep2meea(k)
    if rep == "mee": x = x.copy(); x[0] = k[0]*(1-k[1]**2)
    return x


def cases(tier):
    th = tier == "thorough"
    Es = [0.0, 1e-3, .1, .4, .8, .97] if not th else [0.0, 1e-3, .02, .1, .3, .5, .8, .97, .995]
    I = [0.0, 2e-4, .02, .9, PI/2, 2.4, 3.1] if not th else [0.0, 1.01e-4, 1e-3, .02, .5, .9, PI/2, 2.0, 2.4, 3.1]
    Et, It = ([1e-3, .1, .97], [0.0, 1e-7, 1e-5, 1e-3, .9, PI/2-1e-7, 3.1]) if not th else ([0.0, 1e-3, .02, .1, .5, .97, .999], [0.0, 1e-8, 1e-7, 1e-6, 1e-5, 1e-3, .02, .9, PI/2, PI/2-1e-7, 2.4, 3.1])
    return [dict(e=e, i=i, a=1.3, mu=1.0, O=o, depth=4 if th else 3, ang=TINY) for e in Et for i in It for o in TINY] + [dict(e=e, i=i, a=a, mu=mu, O=o, depth=4 if th else 3, ang=ANG2 if th else ANG)
            for e in Es for i in I for a, mu in (((1.3, 1.0), (24361.0, 398600.44)) + (((.4, .2),) if th else ())) for o in (ANG2 if th else ANG)]


def warm():
    for rep, es in edges(1.0).items():
        for _, f in es: f(start(rep, [1.1, .2, .3, .4, .5, .6], 1.0))


_e = {}
def run_case(c, r):
    mu, a, e, i, o = c["mu"], c["a"], c["e"], c["i"], c["O"]
    if mu not in _e: _e[mu] = edges(mu)
    ed = _e[mu]
    for w in c["ang"]:
        for th in c["ang"]:
            k = np.array([a, e, i, o, w, th])
            rv0 = ref.kep2rv(k, mu)
            sr, sv = a*(1+e), np.sqrt(mu/(a*(1-e)))             # scales of position and velocity
            rl, vl = np.linalg.norm(rv0[:3]), np.linalg.norm(rv0[3:])
            if i == 0: r.tag("equatorial")
            if i > PI/2: r.tag("retrograde")
            if w in (0.0, PI): r.tag("nodal")
            for rep0 in ed:
                x0 = start(rep0, k, mu)
                if rep0 in ("mee", "meea"): definitions(rep0, x0, k, r)
                stack = [(rep0, x0, (rep0,), rep0 == "sv")]
                while stack:
                    rep, x, path, lossy = stack.pop()
                    if len(path) > c["depth"]: continue
                    for nrep, f in ed[rep]:
                        if rep == "sv" and e < 1e-3: continue
                        y = f(x.copy())
                        r.ntrans += 1; r.n += 1
                        lo = lossy or rep == "sv"
                        p2 = path + (nrep,)
                        key = "%s to %s" % (rep, nrep)
                        if y.shape != (6,) or not np.all(np.isfinite(y)):
                            r.bad("conversion %s gives %s" % (key, y), key=key, orbit=k, mu=mu, path=p2); return
                        z = rv_of(nrep, y, mu)
                        tol = 1e-10/(1-e)
                        if lo: tol += 1e-7 + 3e-8/np.sqrt(max(e, 1e-3))/(np.sqrt(np.sin(i)) if i else 1.0)
                        if i > 3: tol *= 50
                        dr = np.linalg.norm(z[:3]-rv0[:3])/sr; dv = np.linalg.norm(z[3:]-rv0[3:])/sv
                        if dr > tol or dv > tol:
                            r.bad("conversion %s moves the orbit (relative position error %.2e, velocity %.2e)" % (key, dr, dv), key=key, orbit=k, mu=mu, path=p2, got=y); return
                        if nrep in ("mee", "meea"): definitions(nrep, y, k, r, tol, path=p2)
                        if nrep == "kep":
                            if abs(y[0]-a) > max(tol, 1e-9)*a*10/(1-e) or abs(y[1]-e) > max(tol, 1e-9)*10 or abs(y[2]-i) > max(tol, 1e-9)*10 or y[1] < 0 or not -1e-15 <= y[2] <= PI:
                                r.bad("conversion %s changes size, shape or inclination" % key, key=key, orbit=k, got=y, path=p2); return
                        stack.append((nrep, y, p2, lo))
                r.traces += 1
    r.states.add((e, i, a, o))
    r.sample = dict(orbit=[a, e, i, o], phases=len(c["ang"])**2, path_length=c["depth"])


def definitions(rep, x, k, r, tol=1e-10, path=()):
    a, e, i, o, w, th = k
    t = np.tan(i/2)
    want = [a if rep == "meea" else a*(1-e*e), e*np.cos(o+w), e*np.sin(o+w), t*np.cos(o), t*np.sin(o)]
    sc = [want[0], 1, 1, 1+t*t, 1+t*t]
    for j in range(5):
        if abs(x[j]-want[j]) > 20*max(tol, 1e-9)*sc[j]/(1-e):
            r.bad("equinoctial element %d is not what its definition says" % j, key="definition", orbit=k, got=x, want=want, path=path); return
    if abs(ref.angdiff(x[5], o+w+th)) > 20*max(tol, 1e-9)/(1-e): r.bad("true longitude is wrong", key="definition", orbit=k, got=x[5], want=o+w+th, path=path)
