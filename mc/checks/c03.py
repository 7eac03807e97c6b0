"""C03: shape and stepping of the recorded histories."""
import itertools
import numpy as np
from .. import ref, features
from ..env import Env, dfs
from ..prob import build, warm_run, wide, Field

LEVEL = "model_checking"
RULE = ("(1) every sequence of thrust/coast/undefined-steering choices of a scripted environment; (2) the product of element set x integrator x time "
        "direction x stepping x scenario (thresholds, duty cycle, battery, perturbation, target reached, tanks empty) x orbit x time budget; every recorded "
        "history is checked entry by entry; state = (configuration, step, throttle, ending), transition = recorded step")
BOUNDS = dict(quick="scripts of length <= 5; 2x2x2x2 settings x 8 scenarios x 16 orbits x 3 budgets of up to 14 steps; 5 sizes of the time unit from 1e-9 to 1e6; 16 runs of 2600 or 5200 steps",
              thorough="scripts of length <= 7; 2x2x2x2 settings x 8 scenarios x 60 orbits x 5 budgets of up to 30 steps; 5 sizes of the time unit; 48 runs of up to 20500 steps")
ASSUME = []
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = {"exit-2": 200, "exit-1": 10, "exit-3": 10, "exit1": 5, "throttle0": 100, "throttle1": 100, "shortened": 5, "long": 20000}
SCEN = ["free", "eta", "duty", "battery", "recharge", "perturbed", "reach", "mass"]
DT = 2.0**-7
SIZES = [1e-9, 1e-5, 3.0, 40.0, 1e6]          # sizes of the time unit: steps of a quarter to a third of these


def _cases(tier):
    q = tier == "quick"
    out = []
    for kind, integ, s, sund in itertools.product(("mee_with_a", "keplerian"), ("rk4", "rkf45"), (1, -1), (False, True)):
        for sc in SCEN:
            if s < 0 and sc in ("battery", "recharge"): continue
            for sz in SIZES if sc in ("free", "duty", "battery") else (): out.append(dict(kind=kind, integ=integ, sgn=s, sund=sund, sc=sc, part=0, size=sz, q=q))
            for n in range(4 if q else 15): out.append(dict(kind=kind, integ=integ, sgn=s, sund=sund, sc=sc, part=n, q=q))
        for n in ((2600,) if integ == "rkf45" else (5200,)) if q else (2600, 5200, 20500): out.append(dict(long=n, kind=kind, integ=integ, sgn=s, sund=sund))
        if not sund: out.append(dict(dfs=5 if q else 7, kind=kind, integ=integ, sgn=s))
    return out


def warm(): warm_run()


def orbits(q):
    es, ths, incs = ([.05, .4], [.3, 2.0, 3.6, 5.5], [.3, 1.4]) if q else ([.02, .2, .45], [.0, 1.0, 2.0, np.pi, 4.4], [.2, .9, 1.6, 2.4])
    return [[1.0, e, i, .7+th, 1.3*th+.4, th] for e in es for i in incs for th in ths]


def check(p, r, d, fixed, key="h"):
    """d: set_problem arguments; fixed: every step must be the requested one"""
    N = len(p.times)-1
    t = np.array(p.times, float)
    bad = lambda m, **k: r.bad(m, key=m[:40], **k)
    lens = dict(states=len(p.states), masses=len(p.masses), battery=len(p.battery))
    if any(v != N+1 for v in lens.values()): bad("recorded lengths differ from the number of times", times=N+1, **lens); return
    lens = dict(controls=len(p.controls), etas=len(p.etas), etas_bounds=len(p.etas_bounds), Qs=len(p.Qs), dQdts=len(p.dQdts))
    if any(v != N for v in lens.values()): bad("recorded lengths differ from the number of steps", steps=N, **lens); return
    if t[0] != 0 or not np.array_equal(np.array(p.states[0], float), d["oe0"]) or p.masses[0] != d["mass0"] or p.battery[0] != d.get("battery_initial", 1.0):
        bad("history does not start with the given initial values", t=t[0], state=p.states[0], mass=p.masses[0], battery=p.battery[0]); return
    s = np.sign(d["t_step"])
    dt = np.diff(t)
    if N and not np.all(s*dt > 0): bad("time does not move strictly in the requested direction", times=t); return
    if fixed and N and not np.all(np.abs(dt-d["t_step"]) <= 1e-9*(abs(d["t_step"])+np.abs(t[1:]))): bad("a step differs from the requested one", steps=dt, want=d["t_step"]); return
    tf = abs(d["tf_max"])
    if np.any(np.abs(t[:-1]) >= tf): bad("steps were taken after the time budget was used up", times=t, tf=tf); return
    if p.exitcode == -2 and abs(t[-1]) < tf: bad("run ended before its time budget was used up", times=t, tf=tf); return
    c = np.array(p.controls, float).reshape(-1, 3)
    if not np.all(np.isfinite(c)) or not np.all(np.isin(c[:, 2], (0, 1))) or np.any(np.abs(c[:, 0]) > np.pi+1e-12) or np.any(np.abs(c[:, 1]) > np.pi/2+1e-12):
        bad("control entries out of range", controls=c); return
    if not all(np.shape(x) == (6,) for x in p.states) or not np.all(np.isfinite(np.array(p.states, float))): bad("recorded state is not finite", states=np.array(p.states, float)); return
    if not np.all(np.isfinite(np.array(p.masses, float))) or not np.all(np.isfinite(np.array(p.battery, float))): bad("recorded mass or battery level is not finite"); return
    r.tag("exit%d" % p.exitcode); r.tag("throttle0", int(np.sum(c[:, 2] == 0))); r.tag("throttle1", int(np.sum(c[:, 2] == 1)))
    if np.any(np.abs(dt) < .9*abs(d["t_step"])): r.tag("shortened")
    for j in range(N):
        k = (key, j, int(c[j, 2]))
        r.states.add(k); r.trans.add(k + ((j+1, int(c[j+1, 2])) if j+1 < N else (p.exitcode,)))
    r.n += 1; r.traces += 1
    return True


def cases(tier): return list(_cases(tier)) + features.cases(tier)


def run_case(c, r):
    if "feat" in c: return features.play(c, r, (features.shape, features.durations))
    if "dfs" in c: return scripted(c, r)
    if "long" in c: return long(c, r)
    kind, q = c["kind"], c["q"]
    np_ = 4 if q else 15
    ac = Field([1e-3, -2e-3, 1e-3]) if c["sc"] == "perturbed" else None
    T = c.get("size", 1.0)
    p = build(kind, mu=1/T**2, integrator=c["integ"], use_sundman=c["sund"], perturbations=ac, anomaly_grid_size=3, **(wide(kind)))
    dt = c["sgn"]*(.25 if not c["sund"] else .4)
    for n, k0 in enumerate(orbits(q)):
        if n % np_ != c["part"] or "size" in c and n > 8: continue
        for tf in ((3.5, -2.125, .1) if q else (7.5, -2.125, .1, 2.0, 5.3)):
            x0 = ref.to_kind(kind, k0)
            kT = np.array(k0); kT[0] *= 1.2; kT[1] += .05; kT[2] += .1; kT[3] += .2
            xT = ref.to_kind(kind, kT)[:5]
            d = dict(oe0=x0, oeT=xT, mass0=1.0, tmax=1e-2, mdot=2e-3, tf_max=tf, t_step=dt)
            et = (0.0, 0.0)
            sc = c["sc"]
            if sc == "eta": et = (.5, .4)
            if sc == "duty": d["duty_cycle"] = (.6, .7)
            if sc in ("battery", "recharge"):
                d.update(battery_initial=.5, battery_capacity=(.3, .6), battery_charge_discharge_rate=(.17, .31), require_full_recharge=sc == "recharge")
            if sc == "reach": d["oeT"] = x0[:5].copy(); d["oeT"][0] += .012*c["sgn"]; d["woe"] = [1, 0, 0, 0, 0]
            if sc == "mass": d["mdot"] = .3*c["sgn"]; d["mass_min"] = .3
            if T != 1:
                d["tmax"] /= T*T; d["mdot"] /= T; d["tf_max"] *= T; d["t_step"] *= 1 if c["sund"] else T
                for k, m in (("duty_cycle", T), ("battery_charge_discharge_rate", 1/T)):
                    if k in d: d[k] = tuple(v*m for v in d[k])
            x0c = x0.copy()
            p.set_problem(**d); p.solve(*et)
            d["oe0"] = x0c
            if not check(p, r, d, not c["sund"] and sc not in ("battery", "recharge"), key=(kind, c["integ"], c["sgn"], c["sund"], sc, T)):
                r.viol[-1]["detail"].update(problem={a: np.array(b, float) for a, b in d.items()}, etas=et); return
    r.sample = dict({k: c[k] for k in ("kind", "integ", "sgn", "sund", "sc")}, steps=len(p.times)-1, exit=p.exitcode)


def long(c, r):
    """thousands of steps of one run"""
    kind, n, s = c["kind"], c["long"], c["sgn"]
    p = build(kind, mu=1.3, integrator=c["integ"], use_sundman=c["sund"], anomaly_grid_size=1, **wide(kind))
    x0 = ref.to_kind(kind, [1.0, .3, .4, .5, .6, .7]); xT = ref.to_kind(kind, [1.3, .2, .5, .6, .7, 0])[:5]
    h = .07*s
    d = dict(oe0=x0, oeT=xT, mass0=1.0, tmax=1e-6, mdot=1e-7, tf_max=(n-.5)*h, t_step=h, duty_cycle=(40*abs(h), 3*abs(h)))
    x0c = x0.copy()
    p.set_problem(**d); p.solve()
    d["oe0"] = x0c
    if not check(p, r, d, not c["sund"], key=(kind, c["integ"], s, c["sund"], "long", n)): r.viol[-1]["detail"].update(steps=len(p.times)-1); return
    if not c["sund"] and len(p.times) != n+1: r.bad("%d steps instead of %d" % (len(p.times)-1, n), key="long"); return
    m = np.array(p.masses); t = np.array(p.times); on = np.array(p.controls)[:, 2]
    if not np.all(np.abs(np.diff(m)+1e-7*np.diff(t)*on) <= 1e-14): r.bad("mass flow changes along a long run", key="long mass"); return
    r.tag("long", len(t)-1)
    r.sample = dict(c, steps=len(t)-1)


def scripted(c, r):
    kind = c["kind"]; dt = c["sgn"]*DT; D = c["dfs"]
    env = Env(kind, zones=[0.0, -6e-3], e0=.2, dt=dt)
    p = build(kind, integrator=c["integ"], k_petro=1e7, rpmin=.797, anomaly_grid_size=2, perturbations=env, nan_angles_threshold=1)
    x0 = ref.to_kind(kind, [1.0, .2, .4, 1.0, .7, 1.6]); xT = x0[:5].copy(); xT[0] = 1.1
    for tfn in (D, D-.5):
        d = dict(oe0=x0, oeT=xT, mass0=1.0, tmax=1e-6, mdot=.5, tf_max=tfn*dt, t_step=dt, woe=[1, 0, 0, 0, 0])
        p.set_problem(**d)
        def run(script):
            env.start(script); p.solve(env.eta, 0.0)
            if not check(p, r, d, True, key=(kind, c["integ"], c["sgn"], "script")): r.viol[-1]["detail"]["choices"] = env.log; return None
            return env.log
        dfs(run)
        if r.viol: return
