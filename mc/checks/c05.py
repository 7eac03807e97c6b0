"""C05: every recorded step against Newtonian motion under the recorded controls."""
import itertools
import numpy as np
from .. import ref, features
from ..prob import build, warm_run

LEVEL = "exploration"
RULE = ("every orbit of the lattice x element set x integrator x direction of time x (fixed, angle) stepping x {coast by threshold, duty cycle, battery or undefined "
        "steering, thrust, perturbed coast, thrust and perturbation} x gravitational parameter; each recorded step of the real solver is compared with an independent Cartesian propagation from the "
        "recorded state under the recorded throttle, angles and mass, bounded by the variation of the input matrix over the step; non-trivial = a step "
        "in which an acceleration acts")
BOUNDS = dict(quick="per element set e 3 x i 4 x node 3 x periapsis 4 x anomaly 4 orbits, of which each setting takes its share; 2 steps each",
              thorough="per element set e 5 x i 6 x node 4 x periapsis 6 x anomaly 6 orbits for every setting; 3 steps each")
ASSUME = ["orbits away from the singularities of the element set (Keplerian: e >= 0.02, 0.1 <= i <= 2.8; equinoctial: i <= 2.8)"]
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = {"coast": 500, "thrust": 500, "ptrb": 500, "backward": 500}
SCALES = [(1.0, 1.0), (3.7, 1.6), (1e-5, 3.0), (1e9, .02), (.2, .7), (398600.44, 7000.0)]      # mu, a: orders of magnitude of the step in time units
MODES = ["coast", "thrust", "ptrb", "both", "duty", "batt", "undef"]


class Vary:
    """an external acceleration that depends on time and place, and on which element set it is asked about"""
    def __init__(self, acc, kind, rate): self.base, self.kind, self.rate = acc, kind, rate
    def at(self, t, x): return self.base*(1.2+np.sin(self.rate*t+x[0]+2*x[5]))
    def get_perturbations_RTN(self, t, oe, elements_type):
        assert elements_type == self.kind, elements_type
        return self.at(t, oe)


def _cases(tier):
    q = tier == "quick"
    es = [.02, .3, .7] if q else [.02, .15, .35, .6, .85]
    out = []
    for kind, integ, s, sund, mode in itertools.product(("mee_with_a", "keplerian"), ("rk4", "rkf45"), (1, -1), (False, True), MODES):
        if mode == "batt" and s < 0: continue
        for ne, e in enumerate(es): out.append(dict(kind=kind, integ=integ, sgn=s, sund=sund, mode=mode, e=e, q=q))
    return out


def warm(): warm_run()


def lattice(kind, e, q):
    I = ([0.0 if kind == "mee_with_a" else .1, .8, 1.7, 2.8] if q else [0.0 if kind == "mee_with_a" else .1, .4, 1.0, np.pi/2, 2.2, 2.8])
    O = [.4, 2.4, 4.4] if q else [-.6, .4, 2.4, 4.4]
    W = [.5, 2.0, 3.7, 5.4] if q else [.3, 1.3, 2.0, 3.0, 3.7, 5.4]
    TH = [.2, 1.9, 3.3, 4.9] if q else [-.4, .2, 1.4, np.pi, 3.8, 4.9]
    return list(itertools.product(I, O, W, TH))


def cases(tier): return list(_cases(tier)) + features.cases(tier)


def run_case(c, r):
    if "feat" in c: return features.play(c, r, features.motion)
    kind, q, e, mode = c["kind"], c["q"], c["e"], c["mode"]
    salt = sum(map(ord, c["integ"]+mode)) + (c["sgn"] > 0)*3 + c["sund"]*5
    for mu, a in SCALES[:4] if q else SCALES:
        acc0 = 1e-5*mu/a**2
        m0 = 2.5
        field = Vary(np.array([.5, -.7, .6])*acc0, kind, 3.0) if mode in ("ptrb", "both") else None
        lo = [1e-3, 1e-6, 1e-6, -1e3, -1e3, -1e9] if kind == "keplerian" else [1e-3, -10, -10, -1e3, -1e3]
        hi = [1e6, .99, np.pi, 1e3, 1e3, 1e9] if kind == "keplerian" else [1e6, 10, 10, 1e3, 1e3]
        if field is not None: field.rate = 20*np.sqrt(mu/(a*(1-e*e))**3)*(1+e)**2      # about a radian per step
        odd = dict(k_petro=1e7) if mode == "undef" else {}
        p = build(kind, mu=mu, integrator=c["integ"], use_sundman=c["sund"], perturbations=field, oe_min=lo, oe_max=hi, anomaly_grid_size=2, rpmin=.01*a if mode != "undef" else 9*a, nan_angles_threshold=1000, **odd)
        eta = 2.0 if mode in ("coast", "ptrb") else 0.0          # nothing reaches an effectivity of two
        wmax = np.sqrt(mu/(a*(1-e*e))**3)*(1+e)**2
        for n, (i, O, w, th) in enumerate(lattice(kind, e, q)):
            if q and (n+salt) % 8 not in {1.0: (0,), 3.7: (0, 3), 1e-5: (5,), 1e9: (6,)}[mu]: continue
            x0 = ref.to_kind(kind, [a, e, i, O, w, th])
            kT = np.array([a*1.3, min(e+.1, .8), min(i+.2, 2.8), O-.5, w+.4, 0])
            xT = ref.to_kind(kind, kT)[:5]
            dt = c["sgn"]*(.06/wmax if not c["sund"] else .03)
            N = 2 if q else 3
            tf = (N-.5)*dt*(1 if not c["sund"] else np.sqrt(a**3/mu)*(1-e))
            p.set_problem(x0, xT, m0, m0*acc0, .01*m0*wmax, tf, dt,
                          **(dict(duty_cycle=(0.0, 1e9)) if mode == "duty" else dict(battery_initial=.3, battery_capacity=(.3, 1.0), battery_charge_discharge_rate=(.02*wmax, .03*wmax), require_full_recharge=True) if mode == "batt" else {}))
            p.solve(eta, 0.0)
            for j in range(min(len(p.times)-1, N)):
                if not step(p, j, kind, mu, field, wmax, r, c): return
    r.sample = dict({k: c[k] for k in ("kind", "integ", "sgn", "sund", "mode", "e")}, last_problem=[a, e, i, O, w, th])


def step(p, j, kind, mu, field, wmax, r, c):
    x = np.array(p.states[j], float); y = np.array(p.states[j+1], float)
    h = p.times[j+1]-p.times[j]
    al, be, thr = p.controls[j]
    u = thr*p.tmax/p.masses[j]*ref.dir_of(al, be) + (field.at(p.times[j], x) if field is not None else 0.0)
    amag = np.linalg.norm(u)
    r.n += 1; r.nt += int(amag > 0)
    r.tag("coast" if amag == 0 else "thrust" if field is None else "ptrb"); r.tag("backward" if h < 0 else "forward")
    to, fro = ref.CONV[kind]
    if (c["mode"] in ("thrust", "both") or c["mode"] == "duty" and j == 0) != bool(thr): r.bad("throttle is %s in step %d of a run that must %s" % (thr, j, c["mode"]), key="throttle"); return False
    if amag == 0:
        z = ref.coast(kind, x, mu, h)
        if np.any(np.abs(y[:5]-x[:5]) > 1e-13*(1+np.abs(x[:5]))):
            r.bad("coasting changed a slow element", key="coast", before=x, after=y, dt=h); return False
        tol = .2*(wmax*abs(h))**5 + 1e-11
        if not abs(y[5]-z[5]) <= tol:
            r.bad("coasting anomaly is off by %.3g (bound %.3g)" % (y[5]-z[5], tol), key="kepler", before=x, after=y, want=z, dt=h, mu=mu); return False
        return True
    rv = ref.newton(to(x, mu), mu, u, h, 10)
    z = np.real(fro(rv, mu)); z0 = ref.coast(kind, x, mu, h)
    for k in (3, 4, 5) if kind == "keplerian" else (5,): z[k] = y[k] + ref.angdiff(z[k], y[k])
    B0, D0 = ref.gauss(kind, x, mu)
    M = np.zeros(6)
    for s in (.2, .4, .6, .8, 1.0):
        B, _ = ref.gauss(kind, ref.coast(kind, x, mu, s*h), mu)
        M = np.maximum(M, np.linalg.norm(B-B0, axis=1))
    ah = amag*abs(h)
    tol = 1.05*M*ah + 1e-12*(1+np.abs(x)) + 3*(ah*np.linalg.norm(B0))**2
    e = ref.elem2kep(kind, x)[1]
    tol[5] += .2*(wmax*abs(h))**5 + 3*wmax*abs(h)*ah*np.linalg.norm(B0[:5]/np.array([x[0], 1-e, 1, 1, 1])[:, None])
    d = np.abs(y-z)
    if not np.all(d <= tol):
        r.bad("%s step does not follow the recorded controls: error %s, bound %s" % (kind, d, tol), key="motion", before=x, after=y, want=z,
              direction=ref.dir_of(al, be), acceleration=u, dt=h, mu=mu, effect=(B0@u*h))
        return False
    # sharpness: how much smaller the bound is than the effect
    r.tag("sharp" if np.linalg.norm((tol/np.maximum(np.linalg.norm(B0, axis=1), 1e-30))[:5]) < .8*ah else "blunt")
    return True
