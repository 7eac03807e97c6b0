"""C07: the quotient is the documented one."""
import itertools
import numpy as np
import pyqlaw
from .. import ref, prob, features
from ..prob import FUNS
from .c06 import LAW, SPECIAL, kept, args, _funs

LEVEL = "exploration"
RULE = ("case = element set x orbit x target x (every one-hot weight, mixed weights) x parameter set; the quotient of the real control "
        "function is compared with the documented formula, its parts with brute-force maxima over thrust direction and anomaly, and "
        "recorded quotients of real runs with the formula at the recorded states; non-trivial = quotient positive")
BOUNDS = dict(quick="e 3, i 3, node 3, periapsis 4 values; 6 targets and 11 parameter sets (a quarter of the pairs: index sum divisible by 4); 9 weightings; 64 short runs",
              thorough="e 5, i 5, node 5, periapsis 6 values; 6 targets; 9 weightings; all 11 parameter sets; 64 short runs")
ASSUME = ["rates of eccentricity-vector and inclination-vector components of equinoctial elements are the published approximations"]
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = dict(bruteforce=100, runs=50, zero=20)

PARS = [{}, dict(wp=0.0), dict(wp=2.5, rpmin=.8, k=3.0), dict(m=1.5), dict(n=3.0), dict(r=1.3, n=2.0), dict(b=.4), dict(n=2.5, m=2., r=3., k=.5, b=0.), dict(k=90.0, rpmin=1.3), dict(k=-40.0, rpmin=.4, m=.27, n=3.7, r=1.6, b=.013), dict(m=.05, n=9.0, r=4.5, wp=1e4)]
WTS = [tuple(float(i == j) for i in range(5)) for j in range(5)] + [(1., 1., 1., 1., 1.), (2., .5, 3., .1, .7), (0., 1., 0., 2., 0.), (.0, .0, 5., .3, 1.)]
TG = [(1.5, .1, .8, 1.0, 2.0), (.7, .5, .2, 4.0, 5.5), ("a", .2, .5, 6.1, .1), (1.2, "e", "i", "O", "w"), (3.0, .01, 1.5, 3.3, 4.4), (.9, .3, 1.0, .2, "w")]


def _cases(tier):
    th = tier == "thorough"
    Es, I, O, W = ([.03, .3, .7], [.05, .7, 1.9], [.2, 2.5, 5.0], [.3, 1.9, 3.5, 5.2]) if not th else (
        [.01, .15, .3, .6, .9], [.01, .5, 1.2, 2.0, 3.0], [.1, 1.4, 2.5, 4.1, 6.0], [.1, 1.3, 2.2, 3.5, 4.4, 6.1])
    out = [dict(kind=k, a=a, e=e, i=i, O=O, W=W, th=th) for k in FUNS for a in ((1.0, 2.2) if th else (1.3,)) for e in Es for i in I]
    out += [dict(kind="mee_with_a", special=list(s)) for s in SPECIAL]
    out += [dict(run=True, kind=k, it=it, dt=dt, mu=mu, sund=s, pert=p) for k in FUNS for it in ("rk4", "rkf45") for dt in (.125, -.125) for mu in (1.0, 2.0) for s in (False, True) for p in (False, True)]
    return out


def warm():
    for kind in FUNS: _funs(kind)
    prob.warm_run()


def Qof(kind, x, xT, w, mu, acc, par):
    return float(_funs(kind)[0](*args(mu, acc, x, xT, par, w))[2])


def check(kind, x, xT, r, mu, acc, where, pars=PARS):
    bad = lambda what, **k: r.bad("%s: %s" % (kind, what), key=what, state=x, target=xT[:5], mu=mu, acc=acc, where=where, **k)
    for par in pars:
        P = dict(ref.DEFPAR, **par)
        qs = []
        for w in WTS:
            q = Qof(kind, x, xT, w, mu, acc, par)
            want = float(np.real(ref.quotient(kind, x, xT, w, mu, acc, P)))
            r.n += 1; r.nt += want > 0
            qs.append(q)
            if not np.isfinite(q) or q < 0: bad("quotient negative or undefined", q=q, w=w, par=par); return
            if abs(q-want) > 1e-8*abs(want)+1e-300: bad("quotient is not the documented one", got=q, want=want, w=w, par=par); return
            zero = all(wj == 0 or d == 0 for wj, d in zip(w, errs(kind, x, xT)))
            if zero:
                r.tag("zero")
                if q > 1e-20: bad("quotient does not vanish at the target", q=q, w=w)
            elif q <= 0: bad("quotient vanishes away from the target", w=w)
        for w, q in zip(WTS[5:], qs[5:]):
            lin = sum(wj*qj for wj, qj in zip(w, qs[:5]))
            if abs(q-lin) > 1e-9*abs(lin): bad("quotient is not linear in the weights", got=q, want=lin, w=w, par=par)


def errs(kind, x, xT):
    d = [x[j]-xT[j] for j in range(5)]
    if kind == "keplerian":
        for j in (3, 4): d[j] = float(ref.angdiff(x[j], xT[j]))
    return d


def brute(kind, x, mu, acc, r):
    """rates implied by one-hot quotients against the maximum over anomaly and direction"""
    xT = x.copy()
    for j, dx in enumerate((.07, .03, .05, .06, .04)): xT[j] += dx
    L = np.linspace(0, ref.TAU, 181)[:-1] + 1e-3
    def row(j, l):
        y = x.copy(); y[5] = l
        return np.linalg.norm(ref.gauss(kind, y, mu)[0][j])
    js = range(4) if kind == "keplerian" else (0,)
    if kind == "keplerian" and abs(np.cos(x[4])) < 1e-12: js = (0, 1, 2)
    vals = np.array([np.linalg.norm(ref.gauss(kind, np.append(x[:5], l), mu)[0], axis=1) for l in L])
    for j in js:
        w = [0.]*5; w[j] = 1.
        q = Qof(kind, x, xT, w, mu, acc, dict(wp=0.0, m=1e6))
        R = abs(x[j]-xT[j])/np.sqrt(q)
        l0 = L[int(vals[:, j].argmax())]; d = L[1]-L[0]
        lo, hi = l0-d, l0+d                                 # golden-section refinement of the brute-force maximum
        g = (np.sqrt(5)-1)/2
        for _ in range(40):
            m1, m2 = hi-g*(hi-lo), lo+g*(hi-lo)
            if row(j, m1) < row(j, m2): lo = m1
            else: hi = m2
        M = acc*row(j, (lo+hi)/2)
        r.n += 1; r.nt += 1; r.tag("bruteforce")
        if abs(R-M) > 2e-6*M: r.bad("%s: rate used for element %d is not its maximum over direction and anomaly" % (kind, j), key="rate", state=x, got=R, want=M)


def cases(tier): return list(_cases(tier)) + features.cases(tier)


def run_case(c, r):
    if "feat" in c: return features.play(c, r, features.quotients)
    kind = c["kind"]
    if c.get("run"): return runs(c, r)
    if "special" in c:
        x = np.array(c["special"] + [.4])
        for T in TG:
            if any(isinstance(t, str) for t in T): continue
            check(kind, x, ref.kep2meea(kept([1.]*6, T)), r, 1.7, -2e-3, "special")
        return
    for o, w in itertools.product(c["O"], c["W"]):
        k = np.array([c["a"], c["e"], c["i"], o, w, .9])
        x = ref.to_kind(kind, k)
        for jT, T in enumerate(TG):
            kT = kept(k, T)
            if T[3] == "O" and T[1] == "e" and kind == "mee_with_a": xT = np.append(1.2, x[1:])
            else: xT = ref.to_kind(kind, kT)
            check(kind, x, xT, r, 1.0, 1e-3, "lattice", PARS if c["th"] else [P for jP, P in enumerate(PARS) if (jP+jT) % 4 == 0])
        if o == c["O"][0]: brute(kind, x, 1.4, 1e-2, r)
    r.sample = dict(kind=kind, orbit=[c["a"], c["e"], c["i"]], parameter_sets=len(PARS), weightings=len(WTS))


def runs(c, r):
    kind, mu = c["kind"], c["mu"]
    k0 = np.array([1.1, .2, .6, 2.4, 4.0, 1.0]); kT = np.array([1.6, .35, .9, 1.9, 3.3, 0.])
    par = dict(rpmin=.53, k=2.3, m=.27, n=3.7, r=1.6, b=.013, wp=1.7)
    w = (1., .5, 2., .3, 1.5)
    p = prob.build(kind, mu=mu, integrator=c["it"], use_sundman=c["sund"], rpmin=.53, k_petro=2.3, m_petro=.27, n_petro=3.7, r_petro=1.6,
                   b_petro=.013, wp=1.7, perturbations=prob.Field([1e-3, 2e-3, -1e-3]) if c["pert"] else None, **prob.wide(kind))
    p.set_problem(ref.to_kind(kind, k0), ref.to_kind(kind, kT)[:5], 1.5, 2e-3, 1e-2, 2.5, c["dt"], woe=w, duty_cycle=(.5, .25), battery_initial=1.0,
                  battery_capacity=(.2, 1.), battery_charge_discharge_rate=(.1, .1))
    p.solve(eta_a=.2, eta_r=.2)
    h = prob.hist(p)
    for j, q in enumerate(h["Qs"]):
        x = h["states"][j]; m = h["masses"][j]
        want = float(np.real(ref.quotient(kind, x, ref.to_kind(kind, kT), w, mu, 2e-3/m, par)))
        r.n += 1; r.nt += 1
        if not abs(q-want) <= 1e-8*want: r.bad("recorded quotient is not that of the recorded state", key="recorded", step=j, got=q, want=want, case=c)
    r.tag("runs")
