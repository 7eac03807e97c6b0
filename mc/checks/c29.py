"""C29: settings changed on an object."""
import numpy as np
from .. import ref, features
from ..prob import build, hist, same, warm_run, Zero

LEVEL = "exploration"
RULE = ("every run of a covering array is repeated on an object built and posed with other values of every setting, which are then changed by assignment to the values of the run, all at once before "
        "solving; after a first solve with the other values; and one half at a time with a solve in between; histories must equal those of the plain run bit for bit; "
        "non-trivial = repeated run with at least one step")
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k].replace("5-way combinations of 22 features (8149", "4-way combinations of 22 features (1620") for k, v in dict(quick="3 ways of changing 17 settings and 14 problem parameters", thorough="3 ways of changing 17 settings and 14 problem parameters").items()}
ASSUME = []
NEED = {"defaults": 500, "assigned": 1000, "after a run": 300, "in halves": 300, "mu": 1000, "integrator": 1000, "perturbations": 500, "woe": 1000}


def cases(tier): return features.cases(tier, per=8, t=4, long=False) + [c for c in features.cases(tier, t=3) if c["N"] > 17 and c["N"] < 100]


def warm(): warm_run()


def other(k, v, R):
    """another admissible value"""
    if k == "integrator": return "rkf45" if v == "rk4" else "rk4"
    if isinstance(v, (bool, np.bool_)): return not v
    if k == "perturbations": return Zero() if v is None else None
    if k == "oe_min": return np.array(v, float)-1.0 if R.kind != "keplerian" else np.array(v, float)*.5
    if k == "oe_max": return np.array(v, float)*1.01
    if k in ("woe",): return np.array([2.0, 1, .3, 1, 1])
    if k == "duty_cycle": return (3*R.nom, .7*R.nom)
    if k == "battery_capacity": return (.1, .9)
    if k == "battery_charge_discharge_rate": return (.01/R.nom, .03/R.nom) if R.f["sgn"] > 0 else (0.0, 0.0)
    if k == "anomaly_grid_size": return v+3
    if k in ("nan_angles_threshold", "exit_at_relaxed", "print_frequency"): return v+2
    if k == "verbosity": return 0
    if k in ("tol_oe", "oe0", "oeT"): return np.array(v, float)*1.1
    if k == "t_step": return v*.7
    if k == "tf_max": return v*.4
    if k == "mass_min": return max(.01, v*.5)
    return v*1.3 if v else .01*R.m0/R.nom


STORED = dict(battery_initial=1.0, battery_capacity=(.2, 1.0), battery_charge_discharge_rate=(0.0, 0.0), require_full_recharge=False, duty_cycle=(1e16, 0.0))


class Enough(Exception): pass


def cut(p, eta):
    """a solve of a few steps, ended by an exception of the user's"""
    asked = [0]
    def f(t, oe, m, b):
        asked[0] += 1
        if asked[0] > 3: raise Enough
        return eta
    try: p.solve(f, .1)
    except Enough: pass


def late(R, r):
    h = hist(R.p)
    set_ = dict(R.settings); tol = np.array(set_.pop("tol_oe"), float); fac = set_.pop("relaxed_tol_factor")
    set_["exit_at_relaxed"] = R.relaxed
    prob = dict(STORED, **R.d)
    if prob["woe"] is None: prob["woe"] = np.ones(5)
    prob["woe"] = np.array(prob["woe"], float); prob["oeT"] = np.array(prob["oeT"], float)[:5]
    z = sum(ord(z) for v in R.f.values() for z in str(v)); n = z % 3
    so = {k: other(k, v, R) for k, v in set_.items()}; po = {k: other(k, v, R) for k, v in prob.items()}
    if z//3 % 2:        # the other values are the defaults
        r.tag("defaults"); so = {k: v for k, v in so.items() if k in ("oe_min", "oe_max") and not z//6 % 2}; po = {k: po[k] for k in ("oe0", "oeT", "mass0", "tmax", "mdot", "tf_max", "t_step")}
    p = build(R.kind, tol_oe=tol*1.7, relaxed_tol_factor=max(1, fac*.5), **so)
    p.set_problem(**po)
    todo = list(set_.items()) + list(prob.items()) + [("tol_oe", tol), ("tol_oe_relaxed", fac*tol)]
    def give(items):
        for k, v in items: setattr(p, k, v)
    def clear():
        R.asked.clear()
        if isinstance(R.field, features.Vary): R.field.calls.clear()
    if n == 0: give(todo); r.tag("assigned")
    if n == 1:
        cut(p, .2); give(todo); r.tag("after a run")
    if n == 2:
        give(todo[::2]); cut(p, .1); give(todo[1::2]); r.tag("in halves")
    for k in set_: r.tag(k)
    r.tag("woe"); r.tag("assigned"); clear()
    p.solve(*R.etas)
    r.nt += R.n_steps > 0
    d = same(hist(p), h)
    if d: return "settings given by assignment (%s) work differently: %s" % (("at once", "after a run", "in two halves")[n], "; ".join(d)[:400]), dict(settings=repr(set_)[:500])


def run_case(c, r): return features.play(c, r, late)
