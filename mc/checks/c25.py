"""C25: stopping rules only decide where a run ends, and a run can be continued from any of its records."""
import itertools
import numpy as np
from .. import ref, features
from ..prob import build, warm_run, hist, same, wide

LEVEL = "model_checking"
RULE = ("every run of a covering array is repeated with all stopping rules out of reach: it must be an exact prefix of that one; and from every recorded step at which the supervisor is in "
        "its initial condition a new problem is posed with the recorded state, mass and level (time-dependent models shifted): it must repeat the remaining records; "
        "transitions are steps repeated after a continuation; runs with any subset of elements at their targets are compared between tolerances; non-trivial = continued run compared")
RULE += features.RULE
BOUNDS = dict(quick="9 tolerances x every subset of elements at or near the target; every recorded step of every third short run, first and last possible one of the others, four of each long run", thorough="9 tolerances x every subset of elements at or near the target; every recorded step of every short run, four of each long run")
BOUNDS = {k: v + features.BOUND[k].replace("5-way combinations of 22 features (8149", "4-way combinations of 22 features (1620") for k, v in BOUNDS.items()}
ASSUME = []
NEED = {"prefix": 1000, "continued": 2000, "continued off": 50, "exit1": 50, "exit2": 50, "exit-1": 50, "exit-3": 50, "arrived": 2000}
ROWS = ("times", "states", "masses", "battery")
STEPS = ("controls", "etas", "bounds", "Qs", "dQdts")


def cases(tier):
    return features.cases(tier, per=8, t=4) + [dict(kind=k, near=s, at=a) for k in ("mee_with_a", "keplerian") for s in itertools.product((0, 1), repeat=5) if not all(s) for a in (0.0, 1e-7, -1e-5, 1e-3)]


def arrived(c, r):
    """some elements start at their targets, or very close: tolerances and counters must still not steer"""
    kind = c["kind"]
    x0 = ref.to_kind(kind, [1.0, .3, .5, .7, 1.9, .4]); xT = ref.to_kind(kind, [1.3, .25, .6, .9, 1.5, 0.])[:5]
    for j in range(5):
        if c["near"][j]: xT[j] = x0[j]+c["at"]
    for eta in ((0.0, 0.0), (.3, .2)):
        want = None
        for tol, fac in ((1e-300, 1.0), (1e-12, 10.0), (1e-5, 10.0), (1e-3, 10.0), (1e-3, 1e3), (.1, 10.0), (.1, 1.0), (30.0, 10.0), (1e8, 1.0)):
            for weighted in (True, False):
                # elements with an unreachable tolerance keep the run going
                t5 = np.array([tol if n else 1e-300 for n in c["near"]]) if weighted else np.full(5, tol)
                p = build(kind, tol_oe=t5, relaxed_tol_factor=fac, exit_at_relaxed=4, anomaly_grid_size=4, **wide(kind))
                p.set_problem(x0, xT, 1.0, 1e-2, 1e-3, .75, .1)
                p.solve(*eta); h = hist(p); n = len(h["times"])-1
                r.n += 1; r.nt += 1; r.ntrans += n; r.tag("arrived")
                if want is None: want = h; continue
                d = same(h, cut(want, 0, n, n), keys=ROWS+STEPS)
                if d: r.bad("tolerances of %g change the run before it ends: %s" % (tol, "; ".join(d)[:300]), key="arrived", near=c["near"], off=c["at"], eta=eta); return
    r.states.add((kind, c["near"], c["at"])); r.traces += 1; r.sample = dict(c)


def warm(): warm_run()


class Later:
    def __init__(self, f, t0): self.f, self.t0 = f, t0
    def get_perturbations_RTN(self, t, oe, k): return self.f.get_perturbations_RTN(t+self.t0, oe, k)


def later(f, t0): return (lambda t, oe, m, b: f(t+t0, oe, m, b)) if callable(f) else f


def initial(R, p):
    """steps at which the supervisor could just have started, by the model"""
    s = R.supervisor(); out = []
    for j in range(len(p.times)-1):
        s.sync(p.battery[j])
        a, h = s.begin(p.times[j], R.requested(j))
        at = p.times[j]
        clean = a and not (s.full and s.charging) if s.ON >= 1e15 else a and s.ton == at and not (s.full and s.charging)
        # without a duty cycle an engine refused only for its level would be refused again
        if not a and s.ON >= 1e15 and s.b <= s.bmin+1e-12: clean = True
        out.append((clean, a))
        s.end(p.times[j+1]-at)
    return out


def cut(h, k, m, n):
    return {**{q: h[q][k:k+m+1] for q in ROWS}, **{q: h[q][k:k+m] for q in STEPS}}


def composed(R, r):
    h = hist(R.p); n = R.n_steps; f = dict(R.f, reuse="fresh")
    r.tag("exit%d" % R.p.exitcode)
    # the same run with no stopping rule in reach
    T = features.Run(f, R.N)
    T.settings.update(tol_oe=np.full(5, 1e-300), relaxed_tol_factor=1.0, exit_at_relaxed=10**6, nan_angles_threshold=10**6)
    T.d.update(mass_min=.01, tf_max=R.tf*1.3)
    drain = (n+6)*abs(T.mdot)*R.nom*3
    if f["sgn"]*T.mdot > 0 and R.m0-drain < .02: T.d["tf_max"] = R.tf
    T.solve(); g = hist(T.p)
    r.tag("prefix"); r.n += 1
    if len(g["times"]) < n+1: return "without stopping rules the run ends earlier, after %d instead of %d steps (code %d)" % (len(g["times"])-1, n, T.p.exitcode)
    d = same(cut(h, 0, n, n), cut(g, 0, n, n), keys=ROWS+STEPS)
    if d: return "the stopping rules change the run before it ends: " + "; ".join(d)[:500]
    # continuation
    st = initial(T, T.p); N = len(g["times"])-1
    ok = [j for j in range(1, N) if st[j][0]]
    if R.N > 50: ok = sorted(set(ok[:1]+ok[len(ok)//3:][:1]+ok[2*len(ok)//3:][:1]+ok[-1:]))
    elif sum(ord(z) for v in f.values() for z in str(v)) % 3 and R.N < 17: ok = ok[:1]+ok[1:][-1:]
    for k in ok:
        C = features.Run(f, R.N)
        t0 = g["times"][k]
        C.settings.update(T.settings)
        if C.settings["perturbations"] is not None: C.settings["perturbations"] = Later(C.field, t0)
        C.d = dict(T.d, oe0=np.array(T.p.states[k], float), mass0=float(g["masses"][k]), tf_max=T.d["tf_max"]-t0, battery_initial=float(g["battery"][k]))
        if "b0" not in R.sk: C.d.pop("battery_initial")
        C.etas = tuple(later(e, t0) for e in T.etas)
        C.solve(); c = hist(C.p)
        m = min(N-k, len(c["times"])-1)
        # the shifted clock may end a run one step earlier or later where the budget is hit exactly
        if abs(len(c["times"])-1-(N-k)) > (1 if abs(abs(g["times"][-1])-abs(T.d["tf_max"])) < 1e-6*abs(R.tf) else 0) + int(abs(abs(g["times"][-2])-abs(T.d["tf_max"])) < 1e-6*abs(R.tf)):
            return "continued from step %d of %d the run takes %d further steps" % (k, N, len(c["times"])-1), dict(times=g["times"], again=c["times"]+t0)
        a, b = cut(g, k, m, N), cut(c, 0, m, m)
        b["times"] = b["times"]+t0
        on = a["controls"][:, 2] > 0
        if not np.array_equal(a["controls"][:, 2], b["controls"][:, 2]): return "continued from step %d the engine is switched differently" % k, dict(was=a["controls"][:, 2], now=b["controls"][:, 2], times=a["times"])
        a["controls"], b["controls"] = a["controls"][on], b["controls"][on]
        r.n += 1; r.nt += 1; r.ntrans += m; r.tag("continued" if st[k][1] else "continued off")
        for q in ROWS+STEPS:
            x, y = a[q], b[q]
            if x.shape != y.shape or not np.array_equal(np.isnan(x), np.isnan(y)): return "continued from step %d %s have another shape" % (k, q)
            if not x.size: continue
            s = np.nanmax(np.abs(x), axis=0)
            if q in ("controls", "etas", "bounds"): s = np.maximum(s, 1.0)
            if q == "states": s = np.maximum(s, [R.a, 1, 1, 1, 1, 1])
            if np.nanmax(np.abs(x-y)/(s+1e-300)) > 1e-9: return "continued from step %d %s differ" % (k, q), dict(was=x, now=y)


def run_case(c, r):
    if "near" in c: return arrived(c, r)
    return features.play(c, r, composed)
