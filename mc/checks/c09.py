"""C09: duty cycle."""
import itertools
import numpy as np
from .. import ref, features
from ..env import Env, dfs
from ..prob import build, warm_run
from ..supervisor import Supervisor, replay

LEVEL = "model_checking"
RULE = ("explicit supervisor automaton (available, time since available, time since unavailable); every pair of ON and OFF durations from a menu that "
        "contains exact multiples and halves of the step, in both directions of time, element sets, integrators and steppings, every pattern of effectivity "
        "coasts up to a length, and every script of coasts and undefined steering; each recorded history is replayed in the automaton step by step; state = "
        "(setting, automaton state), transition = step")
BOUNDS = dict(quick="9 x 9 durations, 24 steps; all 2^6 coast patterns for 5 cycles; all scripts of length <= 4 for 3 cycles",
              thorough="14 x 14 durations, 60 steps; all 2^9 coast patterns for 9 cycles; all scripts of length <= 6 for 5 cycles")
ASSUME = []
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = {"off": 2000, "avail": 2000}
DT = .125


def _cases(tier):
    q = tier == "quick"
    M = [0, .5, 1, 1.5, 2, 3, 4.5, 7, 1e17] if q else [0, .25, .5, 1, 1.5, 2, 2.5, 3, 4, 4.5, 7, 11, 20.5, 1e17]
    C = [(1, 1), (2, .5), (.5, 2), (3, 1.5), (0, 0)] + ([] if q else [(0, 2), (4, 3), (1.5, 1.5), (2, 5)])
    out = []
    for kind, integ, s, sund in itertools.product(("mee_with_a", "keplerian"), ("rk4", "rkf45"), (1, -1), (False, True)):
        for on in M: out.append(dict(on=on, offs=M, kind=kind, integ=integ, sgn=s, sund=sund, N=24 if q else 60))
        if integ == "rk4" and not sund:
            for cy in C: out.append(dict(cyc=cy, kind=kind, sgn=s, bits=6 if q else 9))
            for cy in C[:3 if q else 5]: out.append(dict(scr=cy, kind=kind, sgn=s, depth=4 if q else 6))
    out.append(dict(default=True))
    return out


def warm(): warm_run()


def prob(kind, dt):
    x0 = ref.to_kind(kind, [1.0, .2, .4, 1.0, .7, 1.6]); kT = np.array([1.4, .3, .5, 1.2, .9, 0])
    return dict(oe0=x0, oeT=ref.to_kind(kind, kT)[:5], mass0=1.0, tmax=1e-6, mdot=1e-6, t_step=dt)


def go(c, p, r, d, etas, sup, cfg, sund=False, **kw):
    p.set_problem(**d); p.solve(*etas)
    r.n += 1; r.traces += 1
    e = replay(p, sup, c["kind"], sund, r, cfg, **kw)
    if e:
        r.bad("%s (ON %g, OFF %g)" % (e[0], sup.ON, sup.OFF), key="duty", times=p.times, throttle=[u[2] for u in p.controls], **e[1])
    return e is None


def cases(tier): return list(_cases(tier)) + features.cases(tier, where=lambda f: f['sup'] in ('none', 'duty') or f['sgn'] < 0)


def run_case(c, r):
    if "feat" in c: return features.play(c, r, features.available)
    if "default" in c: return default(r)
    kind = c["kind"]; dt = DT*c["sgn"]
    if "scr" in c: return scripts(c, r)
    p = build(kind, integrator=c.get("integ", "rk4"), use_sundman=c.get("sund", False), anomaly_grid_size=2)
    if "cyc" in c:
        on, off = (v*DT for v in c["cyc"]); n = c["bits"]
        for bits in itertools.product((0, 1), repeat=n):
            at = lambda t: bits[min(int(round(abs(t)/DT)), n-1)]
            eta = lambda t, oe, m, b: 2.0*at(t)
            if not go(c, p, r, dict(prob(kind, dt), tf_max=n*dt, duty_cycle=(on, off)), (eta, 0.0), Supervisor(on, off), ("cyc", kind, c["sgn"])+tuple(c["cyc"]), coast=at):
                r.viol[-1]["detail"]["coasts"] = bits; return
        r.sample = dict(kind=kind, sgn=c["sgn"], cycle=c["cyc"], patterns=2**n); return
    for off in c["offs"]:
        on, of = c["on"]*DT, off*DT
        cyc = (on, of) if (c["on"]+off) % 2 else [on, of]
        if not go(c, p, r, dict(prob(kind, dt), tf_max=c["N"]*dt, duty_cycle=cyc), (0.0, 0.0), Supervisor(on, of), (kind, c["integ"], c["sgn"], c["sund"], on, of), c["sund"]): return
    r.sample = dict({k: c[k] for k in ("kind", "integ", "sgn", "sund", "on")}, throttle=[int(u[2]) for u in p.controls], off=off)


def scripts(c, r):
    kind = c["kind"]; h = 2.0**-7; dt = h*c["sgn"]; on, off = (v*h for v in c["scr"])
    env = Env(kind, zones=[0.0, -6e-3], e0=.2, dt=dt)
    p = build(kind, k_petro=1e7, rpmin=.797, anomaly_grid_size=2, perturbations=env, nan_angles_threshold=100)
    d = dict(prob(kind, dt), tf_max=c["depth"]*dt, duty_cycle=(on, off))
    e = lambda x: x[1] if kind == "keplerian" else np.hypot(x[1], x[2])
    undef = lambda x: 1e7*(1-x[0]*(1-e(x))/.797) > 800
    d.update(mdot=0.0)
    def run(script):
        env.start(script)
        dec = {}
        def eta(t, oe, m, b): dec[t] = env.choose(2); return 2.0*dec[t]
        ok = go(c, p, r, d, (eta, 0.0), Supervisor(on, off), ("scr", kind, c["sgn"])+tuple(c["scr"]), coast=lambda t: dec.get(t, 0), undefined=undef, unit=h/8)
        return env.log if ok else None
    dfs(run)
    r.sample = dict(kind=kind, sgn=c["sgn"], cycle=c["scr"], scripts=r.n)


def default(r):
    for kind, s, dt in itertools.product(("mee_with_a", "keplerian"), (1, -1), (.01, .3, 50.0)):
        p = build(kind)
        p.set_problem(**prob(kind, dt*s), tf_max=30*dt); p.solve(0.0, 0.0)
        r.n += 1; r.traces += 1
        if any(u[2] != 1 for u in p.controls): r.bad("the default duty cycle interrupts thrust", key="default", dt=dt*s); return
