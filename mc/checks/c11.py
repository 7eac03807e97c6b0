"""C11: angle stepping against Kepler's equation."""
import itertools
import numpy as np
from .. import ref, features
from ..prob import build, warm_run, wide

LEVEL = "exploration"
RULE = ("every combination of eccentricity, semi-major axis, gravitational parameter, phase (including several turns either side, periapsis, apoapsis), "
        "periapsis direction, angle step (both signs, up to four turns), element set, integrator and thrust/coast: the duration of each recorded step "
        "against an independent solution of Kepler's equation; plus closed revolutions in N steps; non-trivial = step crossing an apsis")
BOUNDS = dict(quick="6 e x 2 (a, mu) x 4 orientations x 17 phases x 15 angles (lattice shared between settings), 1-3 steps each; revolutions for N in 48, 97",
              thorough="9 e x 3 (a, mu) x 8 orientations x 29 phases x 19 angles, 3 steps each; revolutions for N in 30, 48, 97, 200")
ASSUME = ["e >= 1e-3 for Keplerian elements"]
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = {"apsis": 500, "backward": 500, "revolution": 20}
ANG = [.01, -.01, .3, -.3, 1.0, -1.0, 2.5, -2.5, np.pi, -np.pi, 2*np.pi, -2*np.pi, 7.0, -8.5, 26.0]


def _cases(tier):
    q = tier == "quick"
    es = [.005, .1, .3, .55, .8, .93] if q else [.002, .01, .1, .2, .35, .5, .65, .8, .94]
    return [dict(e=e, kind=k, integ=it, q=q, mode=m) for e in es for k in ("mee_with_a", "keplerian") for it in ("rk4", "rkf45") for m in ("coast", "thrust", "rev")]


def warm(): warm_run()


def cases(tier): return list(_cases(tier)) + features.cases(tier, where=lambda f: f['sund'])


def run_case(c, r):
    if "feat" in c: return features.play(c, r, features.durations)
    kind, e, q = c["kind"], c["e"], c["q"]
    th_ = [0.0, .05, 1.0, np.pi/2, 2.2, 3.0, np.pi, 3.3, 4.5, 6.1, 2*np.pi, 7.5, -.05, -1.5, -np.pi, -9.0, 20.0] if q else list(np.linspace(-10, 10, 19)) + [0.0, np.pi, -np.pi, 2*np.pi, 3*np.pi, -2*np.pi, 31.0, -40.0, 1e-6, -1e-6]
    OR = [(.4, .7, .9), (1.5, 3.6, 5.1), (.9, 5.5, 2.4), (2.2, 2.0, 4.0)] + ([] if q else [(.4, 0.3, 0.0), (1.0, 1.0, np.pi), (.6, 4.2, 6.0), (2.6, .3, 1.6)])
    MU = [(1.0, 1.0), (2.3, .4)] + ([] if q else [(6678.0, 398600.44)])
    lat = list(itertools.product(MU, OR, th_, ANG+([] if q else [4.0, -4.0, 6.0, -6.0])))
    salt = sum(map(ord, kind+c["integ"]+c["mode"]))
    if c["mode"] == "rev": return rev(c, r, MU, OR)
    p = None
    for n, ((a, mu), (i, O, w), th, dE) in enumerate(lat):
        if q and (n+salt) % 4: continue
        x0 = ref.to_kind(kind, [a, e, i, O, w, th])
        xT = ref.to_kind(kind, [a*1.2, min(.9, e+.05), i+.1, O+.1, w+.1, 0])[:5]
        lo = [1e-3, 1e-6, 1e-6, -1e3, -1e3, -1e9] if kind == "keplerian" else [1e-3, -10, -10, -1e3, -1e3]
        hi = [1e6, .99, np.pi, 1e3, 1e3, 1e9] if kind == "keplerian" else [1e6, 10, 10, 1e3, 1e3]
        p = build(kind, mu=mu, integrator=c["integ"], use_sundman=True, oe_min=lo, oe_max=hi, anomaly_grid_size=2, rpmin=.01*a) if p is None or p.mu != mu else p
        T = 2*np.pi*np.sqrt(a**3/mu)
        acc = 1e-6*mu/a**2
        p.set_problem(x0, xT, 1.0, acc, 1e-9, 3*T if abs(dE) < 1 else .2*T*abs(dE)/6.3, dE, woe=[1, 1, 1, 0, 0])
        if abs(dE) < 1: p.tf_max = (2.2 if not q else 1.2)*abs(dE)*(1-e)*T/(2*np.pi)
        p.solve(2.0 if c["mode"] == "coast" else 0.0, 0.0)
        for j in range(min(3, len(p.times)-1)):
            x = np.array(p.states[j], float)
            if not np.all(np.isfinite(x)): break
            aa, ee, tt = ref.elem2kep(kind, x)
            if not 0 < ee < .985: break                     # large steps of the integrator may leave the orbit behind
            E = ref.ta2E(tt, ee)
            # exact difference of mean anomaly, without cancellation
            dM = dE - ee*2*np.sin(dE/2)*np.cos(E+dE/2)
            want = dM*np.sqrt(aa**3/mu)
            got = p.times[j+1]-p.times[j]
            r.n += 1
            k0, k1 = np.floor(E/np.pi), np.floor((E+dE)/np.pi)
            if k0 != k1: r.nt += 1; r.tag("apsis")
            r.tag("backward" if dE < 0 else "forward")
            tol = 1e-9*T*(1+abs(dE)) + 1e-14*abs(p.times[j+1])
            if not abs(got-want) <= tol or got*dE <= 0:
                r.bad("angle step of %.6g lasted %.12g, Kepler's equation gives %.12g" % (dE, got, want), key="duration", state=x, mu=mu, E=E, kind=kind); return
    r.sample = dict({k: c[k] for k in ("kind", "integ", "e", "mode")}, angle=dE, anomaly=th, mu=mu)


def rev(c, r, MU, OR):
    kind, e = c["kind"], c["e"]
    for (a, mu), (i, O, w), th, N, s in itertools.product(MU, OR[:2], (.3, 2.0, -4.0), (48, 97) if c["q"] else (30, 48, 97, 200), (1, -1)):
        if c["q"] and (N == 97 and (s < 0 or th != 2.0) or N == 48 and th == 2.0 and s > 0): continue
        x0 = ref.to_kind(kind, [a, e, i, O, w, th])
        lo = [1e-3, 1e-6, 1e-6, -1e3, -1e3, -1e9] if kind == "keplerian" else [1e-3, -10, -10, -1e3, -1e3]
        p = build(kind, mu=mu, integrator=c["integ"], use_sundman=True, oe_min=lo, oe_max=[1e6, .99, np.pi, 1e3, 1e3, 1e9], anomaly_grid_size=2, rpmin=.01*a)
        T = 2*np.pi*np.sqrt(a**3/mu)
        p.set_problem(x0, ref.to_kind(kind, [a*1.2, min(.95, e+.02), i+.1, O+.1, w+.1, 0])[:5], 1.0, 1e-9*mu/a**2, 1e-9, 1.5*T, s*2*np.pi/N)
        p.solve(2.0, 0.0)
        r.n += 1; r.nt += 1; r.tag("revolution")
        if len(p.times) <= N: r.bad("%d angle steps of a turn over %d exceed 1.5 periods" % (len(p.times)-1, N), key="rev", times=p.times, period=T); return
        t = p.times[N]*s
        # the anomaly is integrated numerically with these steps
        if not abs(t-T) <= T*(1e-9 + 40*(2*np.pi/N)**4/(1-e)**1.5):
            r.bad("%d steps of 2 pi/%d take %.9g, one period is %.9g" % (N, N, t, T), key="rev", orbit=[a, e, i, O, w, th], mu=mu); return
    r.sample = dict(kind=kind, e=e, N=N, period=T, took=t)
