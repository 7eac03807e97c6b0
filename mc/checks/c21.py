"""C21: units and equivalent descriptions of a problem."""
import itertools
import numpy as np
from .. import ref, features
from ..prob import build, hist, warm_run

LEVEL = "exploration"
RULE = ("every setting (element set x integrator x direction x stepping) x scenario (free, thresholds, duty cycle, battery, perturbed, target reached, "
        "relaxed target reached, tanks empty, bounds reached) x orbit is run on the real code as given, in every unit system of a list, and with every angle of state and "
        "target shifted by every number of turns of a list (node: also any common offset); the complete histories are compared entry by entry; "
        "non-trivial = run with a thrusting step")
BOUNDS = dict(quick="2x2x2x2 settings x 9 scenarios x 4 orbits, 8 unit systems, 3 turn counts per angle, 4 node offsets, 24 steps",
              thorough="2x2x2x2 settings x 9 scenarios x 24 orbits, 12 unit systems, 6 turn counts per angle, 8 node offsets, 60 steps")
ASSUME = ["element bounds not reached, except in the scenario that rescales reached bounds of a, e, i", "histories compared to 1e-7"]
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = {"exit-2": 500, "exit-1": 100, "exit1": 100, "exit2": 100, "units": 1000, "turns": 1000, "node": 300, "coast": 1000}
SCEN = ["free", "eta", "duty", "battery", "perturbed", "reach", "relax", "mass", "bounds"]
UNITS = [(4.0, 1.0), (1.0, 8.0), (2.0**-6, 16.0), (1024.0, 512.0), (6378.137, 806.8111), (149597870.7, 5022642.9), (1.0, 2.0**-14), (2.0**20, 2.0**-4),
         (1e-3, 1e3), (.31, 1e-2), (1737.4, 1.0), (1.0, 86400.0)]
TURNS = [1, -1, 3, -2, 7, -5]
OFFS = [.3, -2.5, np.pi, 5.9, 1.1, -1.0, 2.2, -4.0]


def _cases(tier):
    q = tier == "quick"
    return [dict(kind=k, integ=i, sgn=s, sund=u, sc=sc, part=n, q=q)
            for k, i, s, u in itertools.product(("mee_with_a", "keplerian"), ("rk4", "rkf45"), (1, -1), (False, True)) for sc in SCEN
            if not (s < 0 and sc in ("battery", "mass")) for n in range(2 if q else 8)]


def warm(): warm_run()


def orbits(q):
    g = [(.1, .4), (.45, 1.3)] if q else list(itertools.product([.05, .3, .6], [.2, .9, 1.5, 2.4]))
    return [[1.0, e, i, .7+th, 1.3*th+.4, th] for e, i in g for th in (.4, 3.4)]


class Pert:
    """an acceleration depending on time and state, expressed in the units of the problem"""
    def __init__(self, L, T): self.L = L; self.T = T
    def get_perturbations_RTN(self, t, oe, elements_type):
        s = oe[0]/self.L
        return np.array([2e-3*np.sin(t/self.T), -1e-3*s, 3e-3*np.cos(oe[1])])*self.L/self.T**2


def run(c, k0, kT, no, L=1.0, T=1.0, turn0=None, turnT=None, six=False):
    """the same problem in other units, with other representatives of its angles"""
    kind, sc, s = c["kind"], c["sc"], c["sgn"]
    kep = kind == "keplerian"
    x0, xT = ref.to_kind(kind, k0), ref.to_kind(kind, np.append(kT[:5], 0.0))
    x0 = x0 + (turn0 if turn0 is not None else 0); xT = xT + (turnT if turnT is not None else 0)
    x0[0] *= L; xT[0] *= L
    lo = np.array([.05, 1e-4, 1e-4, -1e3, -1e3, -1e3]) if kep else np.array([.05, -5, -5, -5, -5, -1e3])
    hi = np.array([20., .95, 3.1, 1e3, 1e3, 1e3]) if kep else np.array([20., 5, 5, 5, 5, 1e3])
    if sc == "bounds" and kep: hi[0] = 1.01; lo[1] = k0[1]*.99; hi[2] = k0[2]+.005; lo[2] = k0[2]-.005
    lo[0] *= L; hi[0] *= L
    tol = np.array([2e-3, 2e-3, 2e-3, 2e-3, 3e-3]); woe = [1.0, .7, 2.0, .3, .2]
    a = dict(tmax=.03, mdot=.02, tf_max=(23.5 if c["q"] else 59.5)*.2, t_step=.2, mass_min=.5)
    eta = (0.0, 0.0)
    kw = {}
    if sc == "eta":
        eta = (.4, lambda t, oe, m, b: .3+.2*np.sin(t/T))
    if sc == "duty": a["duty_cycle"] = (.71*T, .33*T); eta = (0.0, .3)
    if sc == "battery": a.update(duty_cycle=(1.9*T, .5*T), battery_initial=.55, battery_capacity=(.3, .8), battery_charge_discharge_rate=(.4/T, .31/T), require_full_recharge=no % 2 == 0)
    if sc == "perturbed": kw["perturbations"] = Pert(L, T); eta = (.1, .2)
    if sc == "mass": a.update(mdot=.3, mass_min=.9)
    if sc == "reach": woe = [1.0, 0, 0, 0, 0]; tol[0] = .12
    if sc == "relax": woe = [1.0, 0, 0, 0, 0]; tol[0] = .02
    if c["sund"]: step = .2*s
    else: step = a["t_step"]*T*s
    tol[0] *= L
    p = build(kind, mu=1.2*L**3/T**2, rpmin=.3*L, integrator=c["integ"], use_sundman=c["sund"], anomaly_grid_size=5, tol_oe=tol, oe_min=lo, oe_max=hi,
              relaxed_tol_factor=7.0, exit_at_relaxed=3, **kw)
    p.set_problem(x0, xT if six else xT[:5], 1.0, a.pop("tmax")*L/T**2, a.pop("mdot")/T, a.pop("tf_max")*T*s, step, mass_min=a["mass_min"], woe=woe, **{k: v for k, v in a.items() if k not in ("t_step", "mass_min")})
    p.solve(*eta)
    h = hist(p)
    h["states"][:, 0] /= L; h["times"] /= T; h["Qs"] /= T**2; h["dQdts"] /= T
    if turn0 is not None: h["states"] = h["states"]-turn0
    return h


def ambiguous(h):
    d = np.abs(h["etas"]-h["bounds"])
    return np.any(d[np.isfinite(d)] < 1e-7)


def differs(a, b):
    for k in ("exitcode", "converge"):
        if a[k] != b[k]: return "%s: %r != %r" % (k, a[k], b[k])
    for k in ("times", "states", "masses", "battery", "controls", "etas", "bounds", "Qs", "dQdts"):
        x, y = a[k], b[k]
        if x.shape != y.shape: return "%s: %s entries != %s" % (k, x.shape, y.shape)
        if not x.size: continue
        d = np.abs(x-y)
        if k == "controls": d[:, :2] = np.abs(ref.angdiff(x[:, :2], y[:, :2]))
        if k == "controls": d[:, 0] *= np.cos(x[:, 1])
        sc = np.abs(x) if k in ("Qs", "dQdts") else 1+np.abs(x)
        n = np.isnan(x) != np.isnan(y)
        bad = n | (np.nan_to_num(d) > 1e-7*np.nan_to_num(sc))
        if np.any(bad):
            j = int(np.argwhere(bad)[0][0])
            return "%s differ first at index %d: %s != %s" % (k, j, x[j], y[j])
    return None


def cases(tier): return list(_cases(tier)) + features.cases(tier)


def run_case(c, r):
    if "feat" in c: return features.play(c, r, features.scaled)
    q = c["q"]; kep = c["kind"] == "keplerian"
    for no, k0 in enumerate(orbits(q)):
        if no % (2 if q else 8) != c["part"]: continue
        kT = [1.3, k0[1]*.8, k0[2]+.15, k0[3]+.5, k0[4]-.6]
        if no % 2: kT = [.8, k0[1]+.1, k0[2]-.05, k0[3]+2.6, k0[4]+1.0]
        if c["sc"] in ("reach", "relax"): kT[0] = 1.14 if no % 2 else .87
        base = run(c, k0, kT, no)
        thr = int(np.sum(base["controls"][:, 2])) if base["controls"].size else 0
        r.tag("coast", len(base["controls"])-thr)
        if ambiguous(base): r.tag("skipped: decision within round-off"); continue

        def compare(what, h, **detail):
            r.n += 1; r.nt += bool(thr)
            r.tag(what.split()[0]); r.tag("exit%d" % h["exitcode"])
            d = differs(base, h)
            if d: r.bad("%s: %s" % (what, d), key=what.split()[0], orbit=k0, target=kT, **detail); return True

        for L, T in UNITS[:8] if q else UNITS:
            if compare("units of %g and %g" % (L, T), run(c, k0, kT, no, L, T)): return
        if c["sc"] == "bounds" and kep: r.tag("clipped"); continue
        for n in TURNS[:3] if q else TURNS:
            for j in ((3, 4, 5) if kep else (5,)):
                o = np.zeros(6); o[j] = 2*np.pi*n
                if compare("turns added to angle %d of the state" % j, run(c, k0, kT, no, turn0=o), turns=n): return
                if j < 5 and compare("turns added to angle %d of the target" % j, run(c, k0, kT, no, turnT=o), turns=n): return
                if j == 5 and compare("turns added to the sixth entry of the target", run(c, k0, kT, no, turnT=o, six=True), turns=n): return
            if kep:
                o = 2*np.pi*np.array([0, 0, 0, n, -n, 1]); oT = 2*np.pi*np.array([0, 0, 0, -n, 2, n])
                if compare("turns added to several angles", run(c, k0, kT, no, turn0=o, turnT=oT, six=True), turns=n): return
        if kep:
            for d in OFFS[:4] if q else OFFS:
                o = np.zeros(6); o[3] = d
                if compare("node offset", run(c, k0, kT, no, turn0=o, turnT=o), offset=d): return
    r.sample = dict(kind=c["kind"], integrator=c["integ"], scenario=c["sc"], orbit=k0, target=kT)
