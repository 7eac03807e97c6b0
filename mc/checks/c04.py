"""C04: propellant accounting."""
import itertools
import numpy as np
from .. import ref, features
from ..env import Env, dfs
from ..prob import build, warm_run, wide

LEVEL = "model_checking"
RULE = ("every sequence of {thrust, coast by effectivity, coast by undefined steering} of a scripted environment, times duty cycles and batteries that "
        "interrupt it, times element set x integrator x direction x stepping; the mass history of each execution is compared with a ledger kept from the "
        "recorded throttle and times; plus strongly depleting runs in which each state change is compared with thrust over the mass at the start of "
        "the step; state = (configuration, step, throttle), transition = step")
BOUNDS = dict(quick="scripts of length <= 5 (4 with rkf45, a battery or angle steps) with 4 supervisors; depletion runs over 8 orbits, 5 % of the mass per step, 14 steps",
              thorough="scripts of length <= 7 (6 with rkf45, a battery or angle steps) with 4 supervisors; depletion runs over 40 orbits, 5 % of the mass per step, 20 steps")
ASSUME = []
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = {"overdrawn": 20, "coast": 1000, "thrust": 1000, "shortened": 20, "accel": 500}
DT = 2.0**-7
SUP = {"none": {}, "duty": dict(duty_cycle=(1.5*DT, .5*DT)),
       "battery": dict(battery_initial=.5, battery_capacity=(.3, .6), battery_charge_discharge_rate=(.1/DT, .08/DT)),
       "both": dict(duty_cycle=(2.5*DT, 1.5*DT), battery_initial=.5, battery_capacity=(.3, .6), battery_charge_discharge_rate=(.15/DT, .11/DT), require_full_recharge=True)}


def _cases(tier):
    q = tier == "quick"
    out = []
    for kind, integ, s, sund in itertools.product(("mee_with_a", "keplerian"), ("rk4", "rkf45"), (1, -1), (False, True)):
        for sup in SUP:
            if s < 0 and sup in ("battery", "both"): continue
            for mdot in (.37, 0.0) if sup == "none" else (.37,):
                out.append(dict(kind=kind, integ=integ, sgn=s, sund=sund, sup=sup, mdot=mdot, depth=(5 if not sund and integ == "rk4" else 4)-(sup in ("battery", "both"))+(0 if q else 2)-(sund and sup in ("battery", "both"))))
        out.append(dict(empty=1, kind=kind, integ=integ, sgn=s, sund=sund, q=q))
        for n in range(2 if q else 10):
            out.append(dict(acc=n, kind=kind, integ=integ, sgn=s, sund=sund, q=q))
    return out


def warm(): warm_run()


def ledger(p, mdot, r, key):
    m, t = np.array(p.masses, float), np.array(p.times, float)
    for j in range(len(t)-1):
        thr = p.controls[j][2]
        dt = t[j+1]-t[j]
        want = m[j] - (mdot*dt if thr else 0.0)
        r.states.add(key+(j, int(thr))); r.trans.add(key+(j, int(thr), int(p.controls[j+1][2]) if j+2 < len(t) else -p.exitcode))
        r.tag("thrust" if thr else "coast")
        if not abs(m[j+1]-want) <= 1e-12*(1+abs(m[j])+abs(mdot*t[j+1])):
            r.bad("mass after a %s step of %g is %.15g, expected %.15g" % ("thrusting" if thr else "coasting", dt, m[j+1], want), key="ledger",
                  step=j, masses=m, times=t, throttle=[u[2] for u in p.controls], mdot=mdot)
            return False
    return True


def cases(tier): return list(_cases(tier)) + features.cases(tier)


def run_case(c, r):
    if "feat" in c: return features.play(c, r, (features.ledger, features.thrust_seen))
    if "acc" in c: return accel(c, r)
    if "empty" in c: return emptied(c, r)
    kind = c["kind"]; dt = c["sgn"]*DT; D = c["depth"]
    env = Env(kind, zones=[0.0, -6e-3], e0=.2, dt=dt)
    p = build(kind, integrator=c["integ"], k_petro=1e7, rpmin=.797, anomaly_grid_size=2, perturbations=env, nan_angles_threshold=100, use_sundman=c["sund"])
    x0 = ref.to_kind(kind, [1.0, .2, .4, 1.0, .7, 1.6]); xT = x0[:5].copy(); xT[0] = 1.1
    p.set_problem(x0, xT, 5.0, 1e-6, c["mdot"], D*dt, dt, woe=[1, 0, 0, 0, 0], **SUP[c["sup"]])
    def run(script):
        env.start(script); p.solve(env.eta, 0.0)
        r.n += 1; r.traces += 1
        if np.any(np.abs(np.diff(p.times)) < .9*DT) and not c["sund"]: r.tag("shortened")
        if not ledger(p, c["mdot"], r, (kind, c["integ"], c["sgn"], c["sund"], c["sup"], c["mdot"])): r.viol[-1]["detail"]["choices"] = env.log; return None
        return env.log
    dfs(run)
    r.sample = dict({k: c[k] for k in ("kind", "integ", "sgn", "sund", "sup", "mdot", "depth")}, executions=r.n)


def emptied(c, r):
    """the last step burns more than is left; mass grows without limit backward in time"""
    kind = c["kind"]
    for dt, mdot, mmin, thr in itertools.product((.5, .13), (3.0, 40.0), (.01, .3), (0.0, .4)):
        dt *= c["sgn"]
        p = build(kind, integrator=c["integ"], use_sundman=c["sund"], anomaly_grid_size=2, **wide(kind))
        p.set_problem(ref.to_kind(kind, [1.0, .2, .4, 1.0, .7, 1.6]), ref.to_kind(kind, [1.3, .3, .5, 1.2, .9, 0])[:5], 1.0, 1e-6, mdot, 6*dt, dt, mass_min=mmin)
        p.solve(thr, thr); r.n += 1; r.traces += 1
        r.tag("overdrawn", int(p.masses[-1] < 0))
        if not ledger(p, mdot, r, (kind, c["integ"], c["sgn"], c["sund"], "empty", dt, mdot, mmin)): return
    r.sample = dict(family="emptied", kind=kind, masses=p.masses)


def accel(c, r):
    """start-of-step mass, seen through the motion"""
    kind = c["kind"]
    K = [[1.0, e, i, .9, w, th] for e, i in ((.1, .4), (.5, 1.2)) for w in (.6, 2.5) for th in (1.0, 4.0)] if c["q"] else \
        [[1.0, e, i, .9, w, th] for e, i in ((.1, .4), (.5, 1.2)) for w in (.6, 2.5, 3.3, 5.3) for th in (.4, 1.0, 2.0, 4.0, 5.6)]
    parts = 2 if c["q"] else 10
    for n, k0 in enumerate(K):
        if n % parts != c["acc"]: continue
        dt = .004*c["sgn"]; mdot = 200.0*.05/.004*c["sgn"]; N = 14 if c["q"] else 20
        p = build(kind, integrator=c["integ"], use_sundman=c["sund"], anomaly_grid_size=2, **wide(kind))
        x0 = ref.to_kind(kind, k0); kT = np.array(k0); kT[0] *= 1.3; kT[1] += .1; kT[2] += .2; xT = ref.to_kind(kind, kT)[:5]
        p.set_problem(x0, xT, 200.0, 2.0, mdot*.9/ (1 if not c["sund"] else 1+k0[1]), .95*N*dt, dt, mass_min=5.0)
        # (coasting through the threshold callable in every third step keeps mass and time apart)
        calls = []
        def eta(t, oe, m, b): calls.append(m); return 2.0 if len(calls) % 3 == 0 else 0.0
        p.solve(eta, 0.0)
        r.n += 1; r.traces += 1
        if not ledger(p, p.mdot, r, (kind, c["integ"], c["sgn"], c["sund"], "acc", n)): return
        for j in range(len(p.times)-1):
            a, b, thr = p.controls[j]
            h = p.times[j+1]-p.times[j]
            x = np.array(p.states[j], float)
            B, D = ref.gauss(kind, x, 1.0)
            dx = np.array(p.states[j+1], float)[:5]-x[:5]
            full = B[:5] @ ref.dir_of(a, b)*h
            acc = float(dx @ full/(full @ full))                   # apparent acceleration along the recorded direction
            want = thr*2.0/p.masses[j]
            r.tag("accel")
            if abs(acc-want) > .02*2.0/p.masses[j]:
                r.bad("apparent thrust acceleration %.6g, thrust over mass is %.6g" % (acc, want), key="accel", step=j, mass=p.masses[j], orbit=k0, throttle=thr)
                return
    r.sample = dict(family="acceleration", kind=kind, first_orbit=K[0])
