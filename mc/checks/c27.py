"""C27: runs in progress do not disturb each other."""
import itertools
import numpy as np
from .. import ref
from ..prob import build, hist, same, warm_run, wide
from ..sched import Baton, Script, Preempt

LEVEL = "model_checking"
RULE = ("stateless exploration under a controlled scheduler: two or three runs of the real solver in threads, one running at a time; (a) every interleaving of their steps "
        "(control may pass at each call of a perturbation model); (b) every schedule with one preemption, at any executed line of pyqlaw, of either run (thorough: with two); (c) every step of a run "
        "at which a threshold or perturbation function poses, solves, prints and exports another problem; (d) runs that share the user's arrays, lists and functions; each run's "
        "histories are compared bit for bit with those of the run alone; state = (pair of problems, schedule), transition = step")
BOUNDS = dict(quick="all ordered pairs of 8 problems x 252 interleavings of 5 + 5 steps of every third pair, 1680 of 3 + 3 + 3 steps for 2 triples; one preemption at any line for 16 pairs; nested runs for all pairs",
              thorough="all ordered pairs of 8 problems x 252 interleavings of 5 + 5 steps, 1680 of 3 + 3 + 3 steps for 8 triples; one preemption at any line for all pairs, two at any pair of lines of runs of 2 steps for 6 pairs; nested runs for all pairs")
ASSUME = ["compiled kernels are atomic"]
NEED = {"interleaved": 5000, "preempted": 2000, "nested": 300, "shared": 500}
P = ["mee_rk4", "kep_rk4", "mee_rkf_sund", "kep_rkf_eta", "mee_duty_back", "kep_batt", "mee_eta", "kep_other", "mee_relaxed", "kep_relaxed_eta", "kep_undef", "mee_mass"]


def warm(): warm_run()


class Point:
    """a perturbation model that depends on the state and lets the scheduler in"""
    def __init__(self): self.hook = lambda: None
    def get_perturbations_RTN(self, t, oe, k):
        self.hook()
        return 1e-5*np.array([np.sin(oe[5]+t), .5, -np.cos(oe[5])])


def spec(n, N):
    """settings and problem number n with N steps"""
    name = P[n]
    kind = "keplerian" if "kep" in name else "mee_with_a"
    s = -1 if "back" in name else 1
    k0 = [1.0+.03*n, .2+.03*n, .4+.1*n, .7+n, 1.9-.4*n, .4+2.9*n]; kT = [1.3-.05*n, .25, .5+.1*n, .9+n, 1.5-.4*n, 0.]
    ka = dict(integrator="rkf45" if "rkf" in name else "rk4", use_sundman="sund" in name, mu=1.0+.1*n, anomaly_grid_size=4+n, wp=1+.1*n, rpmin=.1+.02*n, **wide(kind))
    d = dict(oe0=ref.to_kind(kind, k0), oeT=ref.to_kind(kind, kT)[:5], mass0=1.5+.2*n, tmax=.01+.003*n, mdot=.01*(1+n), tf_max=s*100.0, t_step=.1*s, woe=[1, 1+.1*n, .5, 2, .3])
    if "duty" in name: d["duty_cycle"] = (.15, .1)
    if "batt" in name: d.update(battery_initial=.5, battery_capacity=(.3, .6), battery_charge_discharge_rate=(.9, 1.1))
    # four that end by a counter or the tank
    if "relaxed" in name: ka.update(tol_oe=[1e-9]*5, relaxed_tol_factor=1e10, exit_at_relaxed=N)
    if "undef" in name: ka.update(k_petro=1e7, rpmin=5.0, nan_angles_threshold=N-1)
    eta = (.5, .3) if "eta" in name else (0.0, 0.0)
    d["mass_min"] = .02
    # the run ends by its time budget
    p = build(kind, **ka, perturbations=Point()); p.set_problem(**d); p.tf_max = s*N*.5
    d2 = dict(d); d2["tf_max"] = s*1e3
    p.set_problem(**d2)
    class Stop(Exception): pass
    m = [0]
    def count():
        m[0] += 1
        if m[0] > N: raise Stop
    p.perturbations.hook = count
    if n >= 8: p.exit_at_relaxed = p.nan_angles_threshold = 10**6
    try: p.solve(*eta)
    except Stop: pass
    d["tf_max"] = (p.times[N-1]+p.times[N])/2 if n < 8 else s*1e3
    if "mass" in name: d["mass_min"] = (p.masses[N-1]+p.masses[N])/2
    return dict(kind=kind, ka=ka, d=d, eta=eta)


def fresh(sp, hook=None, lib=None):
    """an object with the problem posed, and what solves it"""
    f = Point()
    if hook: f.hook = hook
    d = dict(sp["d"]) if lib else {k: (v.copy() if hasattr(v, "copy") else v) for k, v in sp["d"].items()}
    p = build(sp["kind"], **sp["ka"], perturbations=f)
    p.set_problem(**d)
    return p


_alone = {}
def alone(sp, key):
    if key not in _alone:
        p = fresh(sp); p.solve(*sp["eta"]); _alone[key] = hist(p)
    return _alone[key]


def cases(tier):
    q = tier == "quick"; out = []
    pairs = list(itertools.product(range(8), repeat=2))
    for a, b in pairs:
        if not q or (a*3+b) % 3 == 0 or a == b: out.append(dict(steps=(a, b), N=5))
        if not q or (a+3*b) % 4 == 0: out.append(dict(lines=(a, b), N=3))
        out.append(dict(nest=(a, b), N=6))
    for t in [(0, 1, 2), (3, 5, 4)] if q else [(0, 1, 2), (3, 5, 4), (6, 6, 6), (7, 1, 1), (2, 3, 6), (4, 0, 7), (5, 5, 5), (1, 4, 6)]: out.append(dict(steps=t, N=3))
    if not q:
        for pr in [(0, 0), (1, 1), (0, 3), (3, 3), (2, 5), (6, 4)]:
            for part in range(24): out.append(dict(two=pr, N=2, part=part))
    return out


def words(n, k):
    """all sequences with k occurrences of each of n letters"""
    def rec(left, w):
        if not any(left): yield tuple(w); return
        for t in range(n):
            if left[t]:
                left[t] -= 1; w.append(t); yield from rec(left, w); w.pop(); left[t] += 1
    yield from rec([k]*n, [])


def execute(who, sps, keys, choose, first, lines, r, tag, shared=False):
    """runs them under the schedule; False after a violation"""
    objs = []
    if shared:
        # the same problem, given by the same objects
        f = Point(); d = sps[0]["d"]
        for sp in sps:
            p = build(sp["kind"], **sp["ka"], perturbations=f); p.set_problem(**d); objs.append(p)
    else: objs = [fresh(sp) for sp in sps]
    B = Baton([(lambda p=p, sp=sp: p.solve(*sp["eta"])) for p, sp in zip(objs, sps)], choose, lines)
    if not lines:
        for p in objs: p.perturbations.hook = B.point
    B.run(first)
    r.n += 1; r.nt += 1; r.traces += 1; r.tag(tag)
    for t, (p, k) in enumerate(zip(objs, keys)):
        if B.error[t]: r.bad("run %d of %s fails when interleaved: %s" % (t, [P[w] for w in who], B.error[t][-200:]), key="error", schedule=B.trace, trace=B.error[t]); return False
        r.ntrans += len(p.times)-1
        d = same(hist(p), alone(sps[t], k))
        if d: r.bad("run %d of %s records something else when interleaved: %s" % (t, [P[w] for w in who], "; ".join(d)[:400]), key="differs", schedule=B.trace, shared=shared); return False
    return B


def run_case(c, r):
    if "steps" in c:
        who = c["steps"]; sps = [spec(w, c["N"]) for w in who]; keys = [(w, c["N"]) for w in who]
        for w in words(len(who), c["N"]):
            # letter j = who makes its j-th step; control passes at the perturbation call inside each step
            for sh in (False, True) if len(set(who)) == 1 and len(who) == 2 else (False,):
                if not execute(who, sps, keys, Script(w[1:]), w[0], False, r, "shared" if sh else "interleaved", sh): return
            r.states.add((who, w))
    elif "lines" in c:
        who = c["lines"]; sps = [spec(w, c["N"]) for w in who]; keys = [(w, c["N"]) for w in who]
        B = execute(who, sps, keys, Preempt([]), 0, True, r, "preempted")
        if not B: return
        for first in (0, 1):
            for k in range(1, B.count[first]+1):
                if not execute(who, sps, keys, Preempt([(first, k, 1-first)]), first, True, r, "preempted", who[0] == who[1] and k % 2): return
                r.states.add((who, first, k))
    elif "two" in c:
        who = c["two"]; sps = [spec(w, c["N"]) for w in who]; keys = [(w, c["N"]) for w in who]
        B = execute(who, sps, keys, Preempt([]), 0, True, r, "preempted")
        if not B: return
        for i in range(1+c["part"], B.count[0]+1, 24):
            for j in range(1, B.count[1]+1):
                if not execute(who, sps, keys, Preempt([(0, i, 1), (1, j, 0)]), 0, True, r, "preempted"): return
                r.states.add((who, i, j))
    else: nested(c, r)
    r.sample = {k: v for k, v in c.items()}


def nested(c, r):
    """a user function of one run poses and solves another problem"""
    a, b = c["nest"]; N = c["N"]
    A, Bs = spec(a, N), spec(b, N)
    hA, hB = alone(A, (a, N)), alone(Bs, (b, N))
    for at, via, prior in itertools.product(range(N), ("perturbation", "threshold"), (False, True)):
        calls = [0]; inner = []
        q = fresh(Bs) if prior else None
        def hook():
            calls[0] += 1
            if calls[0] == at+1:
                z = q or fresh(Bs)
                z.solve(*Bs["eta"]); z.pretty(); z.pretty_results(); z.pretty_settings(); z.save_to_dict(None); z.get_cartesian_history()
                inner.append(hist(z))
        p = fresh(A)
        eta = A["eta"]
        if via == "perturbation": p.perturbations.hook = hook
        else:
            e0, e1 = eta
            def ea(t, oe, m, bt): hook(); return e0
            eta = (ea, e1)
        p.solve(*eta)
        r.n += 1; r.nt += 1; r.traces += 1; r.tag("nested"); r.states.add((a, b, at, via, prior)); r.ntrans += len(p.times)-1
        if not inner and via == "perturbation": r.bad("the perturbation model was not asked in step %d" % at, key="calls"); return
        d = same(hist(p), hA)
        if d: r.bad("run %s records something else when its %s function runs %s: %s" % (P[a], via, P[b], "; ".join(d)[:400]), key="outer", step=at, prepared=prior); return
        if inner:
            d = same(inner[0], hB)
            if d: r.bad("run %s records something else when run from inside %s: %s" % (P[b], P[a], "; ".join(d)[:400]), key="inner", step=at, prepared=prior); return
