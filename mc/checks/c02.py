"""C02: every sequence of operations on live objects against freshly built ones."""
import copy, functools, itertools, os
import numpy as np
import pyqlaw
from .. import ref, features
from ..prob import build, hist, same, warm_run

LEVEL = "model_checking"
RULE = ("every helper function is called twice with the same arrays; every sequence of operations (posing one of six problems that end in different ways, solving with one of two threshold settings, a run on "
        "another object, printing/exporting/interpolating, plotting) on a real object; after each solve the complete histories are compared bit by bit "
        "with those of a fresh object; state = (posed problem, problem and thresholds last solved), transition = operation")
BOUNDS = dict(quick="every helper function on 12 states per element set; one object: all sequences up to length 4 (element set mee_with_a, rk4), 3 (other three settings); two objects of the same or "
                    "different kind (5 pairs): every interleaving of two pose/solve programs over all pairs of problems",
              thorough="helpers; one object: all sequences up to length 5 (4 for the other settings); two objects: all 16 pairs of settings, programs of pose/solve/solve")
ASSUME = []
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = {"exit1": 20, "exit-1": 20, "exit-2": 20, "exit-3": 20, "exit2": 20}
SETTINGS = [("mee_with_a", "rk4", False), ("keplerian", "rk4", False), ("keplerian", "rkf45", True), ("mee_with_a", "rkf45", False)]
PROBS = ["conv", "time", "mass", "batt", "nan", "relax"]
SOLVES = [(0.0, 0.0), (.6, .3)]
OPS = ["conv", "time", "mass", "batt", "nan", "relax", "S0", "S1", "other", "noise", "plots"]


def problem(kind, name, dt=.1):
    """fresh argument objects every time"""
    k0 = np.array([1.0, .15, .3, .6, .8, .5]); kT = k0[:5].copy(); kT[0] = 1.02
    kw = dict(tmax=1e-2, mdot=1e-3, tf_max=1.05, t_step=dt, woe=[1.0, .5, .2, .1, .3])
    if name == "conv": kT = np.array([1.003, .15, .3, .6, .8]); kw.update(tf_max=40.0, woe=[1.0, 0.0, 0.0, 0.0, 0.0], tmax=2e-2)
    if name == "time": kw.update(woe=None)
    if name == "mass": kw.update(mdot=.3, mass_min=.8, duty_cycle=[.25, .15], tf_max=3.0, woe=np.array([20.0, .5, 3.0, 1.0, 0.0]))
    if name == "batt": kw.update(battery_initial=.5, battery_capacity=np.array([.3, .6]), battery_charge_discharge_rate=[.9, .7], require_full_recharge=True, tf_max=1.5)
    if name == "nan": k0 = np.array([1.0, .6, .3, .6, .8, .5]); kw.update(tf_max=1.0)
    if name == "relax": kT = np.array([1.0, .1497, .3, .6, .8]); kw.update(woe=np.array([0.0, 1.0, 0.0, 0.0, 0.0]), tf_max=2.0)
    x0 = ref.to_kind(kind, k0); xT = ref.to_kind(kind, np.append(kT, 0.0))
    if name in ("time", "batt"): xT = xT[:5].copy()
    return dict(oe0=x0, oeT=xT, mass0=1.0, **kw)


def make(setting):
    kind, integ, sund = setting
    args = dict(tol_oe=np.array([1e-3, 2e-4, 1e-3, 1e-3, 1e-3]), oe_min=np.array([.05, -5.0 if kind != "keplerian" else 1e-4, -5.0 if kind != "keplerian" else 1e-4, -9.0, -9.0, -1e9]), oe_max=np.array([1e2, .95, 3.0, 70.0, 80.0, 1e9]), relaxed_tol_factor=4, exit_at_relaxed=2, k_petro=1e7, rpmin=.5, anomaly_grid_size=4, nan_angles_threshold=3)
    p = build(kind, integrator=integ, use_sundman=sund, **args)
    p.given = {k: (args[k], args[k].copy()) for k in ("tol_oe", "oe_min", "oe_max")}
    return p


@functools.lru_cache(None)
def fresh(setting, name, s):
    p = make(setting)
    p.set_problem(**problem(setting[0], name))
    p.solve(*SOLVES[s])
    return hist(p)


def _cases(tier):
    out = [dict(helpers=kind, orbit=[e, i, 2.0, th]) for kind in ("keplerian", "mee_with_a") for e in (1e-3, .4) for i in (.01, 2.0) for th in (.3, -4.0, 40.0)]
    for n, st in enumerate(SETTINGS):
        d = (4 if n == 0 else 3) + (tier == "thorough")
        for a, b in itertools.product(PROBS + ["S0", "noise"], OPS): out.append(dict(setting=list(st), first=[a, b], depth=d))
    for a, b in itertools.product(range(len(SETTINGS)), repeat=2):
        if tier == "quick" and (a, b) not in ((0, 0), (0, 1), (1, 1), (2, 3), (3, 0)): continue
        for pa in PROBS: out.append(dict(two=[a, b], pa=pa, long=tier != "quick"))
    return out


def warm():
    warm_run()
    for st in SETTINGS[:2]:
        p = make(st); p.set_problem(**problem(st[0], "time")); p.solve(0., 0.); export(p); plots(p)


def export(p):
    from contextlib import redirect_stdout
    p.pretty_settings()
    if not hasattr(p, "oe0"): return
    p.pretty()
    if not hasattr(p, "times") or len(p.times) < 4: return
    p.pretty_results()
    p.save_to_dict(None); p.save_to_dict(None, save_control_angles=True)
    f = os.path.join(os.environ["VERIF_SCRATCH"], "o%d.json" % os.getpid())
    p.save_to_dict(f, canonical_units={"LU": 1.0})
    p.get_cartesian_history(); p.get_cartesian_history(interpolate=True, steps=5); p.interpolate_states()
    p.evaluate_osculating_qdot(p.states[0], 1e-2)
    p.check_convergence(p.states[-1], p.oeT, p.woe, p.tol_oe)


def plots(p):
    if not hasattr(p, "times") or len(p.times) < 4: return
    import matplotlib.pyplot as plt
    p.plot_battery_history(); p.plot_controls(); p.plot_efficiency()
    p.plot_elements_history(to_keplerian=True); p.plot_trajectory_3d(interpolate=False); p.plot_trajectory_2d()
    plt.close("all")


def frozen(d):
    return {k: (np.array(v, float).copy() if v is not None else None, type(v)) for k, v in d.items() if k not in ("require_full_recharge",)}


class World:
    def __init__(self, setting, r):
        self.st = tuple(setting); self.r = r; self.p = make(self.st); self.posed = None; self.solved = None; self.given = []
        self.o = None

    def key(self): return (self.st, self.posed, self.solved)

    def pose(self, name):
        d = problem(self.st[0], name)
        self.given = [(d, frozen(d))]
        self.p.set_problem(**d)
        self.posed = name

    def solve(self, s):
        r = self.r
        if self.posed is None:
            try: self.p.solve(*SOLVES[s])
            except AssertionError: return True
            r.bad("solving was not refused before a problem was posed", key="unposed"); return False
        self.p.solve(*SOLVES[s])
        self.solved = (self.posed, s)
        h = hist(self.p)
        r.n += 1; r.tag("exit%d" % h["exitcode"])
        diff = same(h, fresh(self.st, self.posed, s))
        if diff:
            r.bad("a run depends on what the object did before: " + "; ".join(diff)[:600], key="history", setting=self.st, problem=self.posed, thresholds=SOLVES[s]); return False
        self.h = h
        return self.intact()

    def intact(self):
        for k, (v, c) in self.p.given.items():
            if not np.array_equal(v, c): self.r.bad("setting %s was modified" % k, key="setting", was=c, now=v); return False
        for d, f in self.given:
            for k, (v, ty) in f.items():
                if type(d[k]) is not ty or (v is not None and not np.array_equal(np.array(d[k], float), v)):
                    self.r.bad("argument %s was modified" % k, key="argument", was=v, now=d[k]); return False
        return True

    def noise(self, f):
        f(self.p)
        if self.solved is not None:
            diff = same(hist(self.p), self.h)
            if diff: self.r.bad("reading results changed them: " + "; ".join(diff)[:500], key="reading", op=f.__name__); return False
        return self.intact()

    def do(self, op):
        k = self.key()
        if op in PROBS: self.pose(op); ok = True
        elif op[0] == "S": ok = self.solve(int(op[1]))
        elif op == "other":
            ki = "keplerian" if self.st[0] == "mee_with_a" else "mee_with_a"
            q = make((ki, "rk4", False)); q.set_problem(**problem(ki, "mass")); q.solve(.1, .1)
            q = make(self.st); q.set_problem(**problem(self.st[0], "relax")); q.solve(0.0, .2)
            ok = True
        elif op == "noise": ok = self.noise(export)
        else: ok = self.noise(plots)
        self.r.states.add(self.key()); self.r.trans.add((k, op, self.key()))
        return ok


def cases(tier): return list(_cases(tier)) + features.cases(tier)


def run_case(c, r):
    if "feat" in c: return features.play(c, r, features.repeatable)
    if "two" in c: return two(c, r)
    if "helpers" in c: return helpers(c, r)
    for n in range(0, c["depth"]-1):
        for tail in itertools.product(OPS, repeat=n):
            seq = c["first"] + list(tail)
            if not seq[-1].startswith("S"): continue          # nothing new to compare since the last solve of a shorter sequence
            if seq.count("plots") > 1 or (c["depth"] < 5 and "plots" in seq and (n > 1 or len(seq) > 3 and c["setting"][0] == "keplerian")): continue
            w = World(c["setting"], r)
            for op in seq:
                if not w.do(op): r.sample = seq; r.viol[-1]["detail"]["sequence"] = seq; return
            r.traces += 1
    if len(c["first"]) and c["first"][1][0] == "S" and c["first"][0] in PROBS:       # the readers, right after a solve
        w = World(c["setting"], r)
        for op in c["first"] + ["noise", "plots", "noise"]:
            if not w.do(op): return
        r.traces += 1
    r.sample = dict(setting=c["setting"], sequences_starting_with=c["first"], max_length=c["depth"])


def two(c, r):
    a, b = (SETTINGS[i] for i in c["two"])
    for pb in PROBS:
        for order in sorted(set(itertools.permutations("AAABBB" if c["long"] else "AABB"))):
            W = dict(A=World(a, r), B=World(b, r)); prog = dict(A=[c["pa"], "S0", "S1"], B=[pb, "S1", "S0"])
            if order[0] == "B" and a == b and c["pa"] == pb: continue
            for x in order:
                if not W[x].do(prog[x].pop(0)): r.viol[-1]["detail"]["order"] = order; return
            for w in W.values():
                if not w.intact(): return
                if same(hist(w.p), w.h): r.bad("results changed by a run on another object", key="other"); return
            r.traces += 1


def helpers(c, r):
    """every helper a user can call, with array arguments: the arguments stay as they were and a second call gives the same"""
    import pyqlaw as q
    from numba import njit
    kind = c["helpers"]; e, i, O, th = c["orbit"]
    kep = np.array([1.3, e, i, O, 1.1, th]); mu = 1.7
    x = ref.to_kind(kind, kep); mee = q.kep2mee(kep); mea = q.kep2mee_with_a(kep); rv = q.kep2sv(kep, mu)
    xT = ref.to_kind(kind, np.array([1.5, .2, .4, .3, 2.0, 0.0]))[:5]; w = np.array([2.0, 1.0, 3.0, 0.0, .5]); tol = np.full(5, 1e-3)
    lo = np.array([1.4, -9.0, .05, -9.0, -9.0, -9.0]); hi = np.array([2.0, .2, .3, 9.0, 9.0, 9.0])
    F = _funs(kind); law = (mu, 1e-3, x, xT, .1, 3.0, 4.0, 2.0, .01, 1.0, 1.0, w)
    psi = [np.array([float(z) for z in col]) for col in F[1](*law)]
    par = (mu, np.array([1e-3, 2e-3, 3e-3]), psi[0], psi[1], psi[2], np.array([1e-4, -1e-4, 2e-4]))
    eom = q.eom_kep_gauss if kind == "keplerian" else q.eom_mee_with_a_gauss
    eye = np.array([[0.0, 1.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 0.0, 1.0]])
    P = q.QLaw(elements_type=kind, verbosity=0); P.set_problem(x, xT, 1.0, 1e-3, 1e-3, 1.0, .1)
    L = [(n, getattr(q, n), a) for n, a in [
        ("get_semiMajorAxis", (rv, mu)), ("get_eccentricity", (rv, mu)), ("get_inclination", (rv,)), ("get_raan", (rv,)), ("get_omega", (rv, mu)), ("get_trueanom", (rv, mu)),
        ("get_period", (rv, mu)), ("sv2kep", (rv, mu)), ("kep2sv", (kep, mu)), ("get_orbit_coordinates", (kep, mu)), ("kep2mee", (kep,)), ("mee2kep", (mee,)), ("mee2mee_with_a", (mee,)),
        ("kep2mee_with_a", (kep,)), ("mee_with_a2kep", (mea,)), ("mee_with_a2sv", (mea, mu)), ("mee2ea", (mea,)), ("check_convergence_keplerian", (kep, xT, w, tol)),
        ("check_convergence_mee", (mea, xT, w, tol)), ("elements_safety", (kep, lo, hi)), ("perturbation_third_body_battin", (rv[:3].copy(), rv[3:]*50, 2.0)),
        ("perturbation_J2", (rv[:3].copy(), eye, mu, 1e-3, 1.0)), ("pxformECI2RTN", (rv[:3].copy(), rv[3:].copy())), ("_u_to_thrust_angles", (rv[:3].copy(),))]]
    L += [("eom", eom, (.2, x, par)), ("lyapunov_control_angles", q.lyapunov_control_angles, (F[0],)+law), ("rk4", q.rk4, (eom, .2, .1, x, par)), ("rkf45", q.rkf45, (eom, .2, -.1, x, par, 1e-5)),
          ("evaluate_osculating_qdot", P.evaluate_osculating_qdot, (x, 1e-3))]
    L += [("function %d" % k, F[k], law) for k in range(4)]
    for n, f, a in L:
        flat = []
        def walk(z):
            if isinstance(z, np.ndarray): flat.append(z)
            elif isinstance(z, (tuple, list)):
                for y in z: walk(y)
        walk(a)
        was = [z.copy() for z in flat]
        v1 = f(*a); r.n += 1; r.nt += 1; r.trans.add((kind, n))
        for z, y in zip(flat, was):
            if not np.array_equal(z, y): return r.bad("%s modifies its argument" % n, key="helper", was=y, now=z)
        v2 = f(*a)
        d = [], []
        for z, o in ((v1, d[0]), (v2, d[1])):
            def go(y):
                if isinstance(y, (tuple, list)):
                    for u in y: go(u)
                else: o.append(np.array(y, float))
            go(z)
        if not all(np.array_equal(a1, a2, equal_nan=True) for a1, a2 in zip(*d)): return r.bad("a second call of %s gives another result" % n, key="helper twice")
        for o in (z for z in [v1] if isinstance(z, np.ndarray)):
            if any(np.shares_memory(o, z) for z in flat): return r.bad("result of %s shares memory with its argument" % n, key="alias")
    r.traces += 1


_fc = {}
def _funs(kind):
    from ..prob import FUNS
    if kind not in _fc: _fc[kind] = FUNS[kind]()
    return _fc[kind]
