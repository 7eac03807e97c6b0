"""C10: battery."""
import itertools
import numpy as np
from .. import ref, features
from ..prob import build, warm_run
from ..supervisor import Supervisor
from .c09 import go, prob

LEVEL = "model_checking"
RULE = ("explicit supervisor automaton (available, timers, charging, battery level); the product of initial levels, limits, charge and discharge rates, full "
        "recharge on/off, duty cycles, step sizes, steppings, element sets and integrators, with and without effectivity coasts; each recorded history is "
        "replayed in the automaton step by step; state = (setting, automaton state), transition = step")
BOUNDS = dict(quick="6 initial levels (one above the maximum) x 3 limits x 4 x 4 rates x 2 x 4 duty cycles x 2 steps (4 of angle), 20 steps each",
              thorough="9 initial levels (three outside the limits) x 6 limits x 6 x 6 rates x 2 x 8 duty cycles x 3 steps (5 of angle), 48 steps each")
ASSUME = ["forward in time"]
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = {"off": 5000, "avail": 5000, "short": 500}


def _cases(tier):
    q = tier == "quick"
    lims = [(.25, 1.0), (.5, 4.0), (0.0, 1.0)] if q else [(.25, 1.0), (.5, 4.0), (0.0, 1.0), (0, 3), (-1.0, 2.0), (0.0, 1e-3)]
    R = [0.0, .5, 1.0, 3.0] if q else [0.0, .25, .5, 1.0, 3.0, 9.0]
    cyc = [(1e16, 0.0), (.25, .125), (.5, .5), (0.0, .25)] + ([] if q else [(.3, .1), (1.0, .25), (.125, 1.0), (2.0, 0.0)])
    sets = [("mee_with_a", "rk4", False), ("keplerian", "rk4", False), ("mee_with_a", "rkf45", False), ("keplerian", "rkf45", True), ("mee_with_a", "rk4", True)]
    return [dict(lim=l, dis=d, full=f, cyc=cy, set=s, R=R, q=q) for l in lims for d in R for f in (False, True) for cy in cyc for s in (sets[:2] if q else sets)] + \
        ([dict(lim=lims[0], dis=d, full=f, cyc=cy, set=s, R=[.5, 3.0], q=q) for d in (.5, 3.0) for f in (False, True) for cy in cyc[:2] for s in sets[2:]] if q else [])


def warm(): warm_run()


def cases(tier): return list(_cases(tier)) + features.cases(tier, where=lambda f: f['sup'] not in ('none', 'duty') and f['sgn'] > 0)


def run_case(c, r):
    if "feat" in c: return features.play(c, r, features.available)
    kind, integ, sund = c["set"]
    lo, hi = c["lim"]
    p = build(kind, integrator=integ, use_sundman=sund, anomaly_grid_size=2)
    N = 20 if c["q"] else 48
    for n, (chg, f0, dt) in enumerate(itertools.product(c["R"], (0.0, .125, .3, .5, 1.0, 1.3) if c["q"] else (0.0, .01, .125, .3, .5, 1.0, 1.3, 3.0, -.2), ((.125, .3) if c["q"] else (.125, .3, .05)) + ((1.3, 2.6) if sund else ()))):
        if c["q"] and (n + len(kind)) % 2 and sund is False and integ == "rk4": continue      # the two element sets share the lattice
        b0 = lo+f0*(hi-lo)
        kw = dict(battery_initial=b0, battery_capacity=(lo, hi) if n % 3 else [lo, hi], battery_charge_discharge_rate=(chg, c["dis"]) if n % 2 else [chg, c["dis"]], require_full_recharge=c["full"])
        coastat = (lambda t: 0) if n % 4 else (lambda t: int(t/dt*.7) % 2)
        eta = 0.0 if n % 4 else (lambda t, oe, m, b: 2.0*coastat(t))
        sup = Supervisor(c["cyc"][0], c["cyc"][1], b0, lo, hi, chg, c["dis"], c["full"])
        p.verbosity = 0
        if not go(dict(kind=kind), p, r, dict(prob(kind, dt), tf_max=N*dt, duty_cycle=tuple(c["cyc"]), **kw), (eta, 0.0), sup,
                  (kind, integ, sund, lo, c["dis"], chg, c["full"], tuple(c["cyc"]), dt), sund, coast=coastat):
            r.viol[-1]["detail"].update(battery=p.battery, rates=(chg, c["dis"]), initial=b0, limits=(lo, hi), full=c["full"], dt=dt); return
    r.sample = dict(setting=c["set"], limits=c["lim"], discharge=c["dis"], full=c["full"], cycle=c["cyc"], battery=[round(float(b), 6) for b in p.battery[:12]])
