"""Runs of the real solver over a covering array of everything a problem can combine, and the expected behaviour of each recorded step.

Every combination of values of any T features occurs in some run (T = 4 quick, 5 thorough; 3 in long runs); the array is checked for that before use. Each check
replays these runs with its own part of the reference."""
import os, functools, itertools
import numpy as np
from . import ref
from .prob import build, hist, same, Zero
from .supervisor import Supervisor, requested

RULE = ("; plus runs of a covering array over the features a problem combines (element set, integrator, direction, stepping, perturbation, duty cycle and battery, "
        "thresholds, mass flow, ending, units, orbit, target, step size, thrust, bounds, grid, weights, quotient parameters, verbosity, previous use of the "
        "object, target length), each recorded step replayed in the reference")
BOUND = dict(quick="; all 4-way combinations of 22 features (1620 runs of up to 11 requested steps), all 3-way ones in 290 runs of up to 60 and all 2-way ones in 47 of up to 600",
             thorough="; all 5-way combinations of 22 features (8149 runs of up to 17 requested steps), all 3-way ones in 290 runs of up to 800 and all 2-way ones in 47 of up to 4000")
AT = dict(quick="; all 3-way combinations of 22 features (290 runs of up to 11 requested steps)", thorough="; all 4-way combinations of 22 features (1620 runs of up to 17 requested steps)")
HERE = os.path.dirname(os.path.abspath(__file__))
FEATURES = dict(
    kind=["mee_with_a", "keplerian"], integ=["rk4", "rkf45"], sgn=[1, -1], sund=[False, True],
    ptrb=["none", "zero", "const", "vary"], sup=["none", "duty", "battery", "recharge", "both"],
    eta=["zero", "abs", "rel", "both", "func", "tiny"], flow=["none", "some", "strong"],
    end=["budget", "whole", "converge", "relaxed", "tank", "undefined"], size=[0, 1, 2, 3, 4], orbit=[0, 1, 2, 3, 4, 5], target=[0, 1, 2, 3],
    h=[.012, .06, .3], acc=[1e-5, 2e-3], bounds=["wide", "default"], grid=[2, 5, 7], weights=[0, 1, 2, 3], par=[0, 1], verb=[0, 1, 3],
    reuse=["fresh", "other problem", "solved before"], six=[False, True], nan=[3, 0, 25])
NAMES = list(FEATURES)
SIZES = [(1.0, 1.0, 1.0), (1.3, .7, 2.5), (1e-5, 3.0, .4), (398600.44, 7000.0, 1500.0), (1e9, .02, 40.0)]       # mu, length, mass
ORBITS = [(.05, .4, .7, .8, 1.6), (.5, 1.3, 2.4, 4.0, 3.6), (.25, 2.3, 5.5, 2.0, -.4), (.1, .15, -.5, .5, 9.0),
          (2e-3, 3e-3, .6, 1.1, 2.2), (.92, 2.8, 37.2, 50.3, -20.1)]
WOE = [[1, 1, 1, 1, 1], [1, .2, 2, 0, 0], [0, 1, 3, .5, .1], [1.0, 0, 0, 0, 0]]
SCEN = {"none": {}, "duty": dict(duty=(1.5, .5)), "battery": dict(batt=(.5, .3, .6, .07, .11)), "recharge": dict(batt=(.35, .3, .6, .13, .06), full=True),
        "both": dict(duty=(2.5, 1.5), batt=(.5, .3, .6, .15, .11), full=True)}
BACK = {"battery": "duty", "recharge": "slow", "both": "long"}         # batteries are for motion forward in time
SCEN.update(slow=dict(duty=(.5, 2.5)), long=dict(duty=(2.5, 1.5)))


def rows(tier, t=None):
    """list of dicts"""
    t = t or (4 if tier == "quick" else 5)
    f = "cover%d.txt" % t
    L = open(os.path.join(HERE, f)).read().split("\n")
    lv = [len(v) for v in FEATURES.values()]
    assert [int(x) for x in L[0].split()] == [t]+lv
    A = np.array([[int(z) for z in s] for s in L[1:] if s])
    for S in itertools.combinations(range(len(lv)), t):
        ix = np.zeros(len(A), int)
        for s in S: ix = ix*lv[s] + A[:, s]
        assert len(np.unique(ix)) == np.prod([lv[s] for s in S])
    return [{n: FEATURES[n][v] for n, v in zip(NAMES, a)} for a in A]


def cases(tier, per=8, where=lambda f: True, t=None, long=True):
    """case dicts, each naming some rows of the array; long runs go through the combinations of three features"""
    q = tier == "quick"
    R = [f for f in rows(tier, t) if where(f)]
    out = [dict(feat=R[i::-(-len(R)//per)], N=11 if q else 17) for i in range(-(-len(R)//per))]
    if long:
        for t, k, N in ((3, 4, 60), (2, 1, 600)) if q else ((3, 1, 800), (2, 1, 4000)):
            R = [f for f in rows(tier, t) if where(f)]
            out += [dict(feat=R[i:i+k], N=N) for i in range(0, len(R), k)]
    return out


class Vary:
    """an external acceleration that depends on time and place; it remembers what it was asked"""
    def __init__(self, acc, rate, a): self.base, self.rate, self.a, self.calls = np.array(acc, float), rate, a, []
    def at(self, t, x): return self.base*(1.2+np.sin(self.rate*t+x[0]/self.a+2*x[5])) if self.rate else self.base.copy()
    def get_perturbations_RTN(self, t, oe, elements_type):
        self.calls.append((float(t), np.array(oe, float), elements_type))
        return self.at(t, oe)


class Run:
    def __init__(self, f, N):
        self.f = f; self.N = N
        F = type("F", (), f)
        kind, s = F.kind, F.sgn
        mu, a, m0 = SIZES[F.size]
        e, i, O, w, th = ORBITS[F.orbit]
        self.kind, self.mu, self.a, self.sund, self.m0 = kind, mu, a, F.sund, m0
        n = np.sqrt(mu/a**3)
        self.n = n
        self.wmax = wmax = n*(1+e)**2/(1-e*e)**1.5
        k0 = np.array([a, e, i, O, w, th])
        kT = [[a*1.3, min(e+.1, .94), i+.2, O+.6, w-.4], [a*.8, e*.7, i-min(.08, .4*i), O-2.5, w+1.0], [a*1.05, min(e+.02, .94), i+.3, O+.05, w+2.6], [a*6, .45, 1.5, O+2.8, w-2.8]][F.target]
        x0 = ref.to_kind(kind, k0); xT = ref.to_kind(kind, np.append(kT, .3))
        if F.target == 2: xT[2] = x0[2]                       # one element already there
        self.k0, self.kT = k0, kT
        self.x0, self.xT = x0.copy(), xT[:5].copy()
        # step and time budget
        if F.sund:
            dE = F.h*(1-e*e)**1.5/(1+e)**3
            self.dt = dt = s*dE; nom = dE/n
            E = ref.ta2E(th if kind == "keplerian" else ref.elem2kep(kind, x0)[2], e)
            dur = lambda k: abs(k*s*dE - e*(np.sin(E+k*s*dE)-np.sin(E)))/n
        else:
            nom = F.h/wmax
            self.dt = dt = s*nom
            dur = lambda k: k*nom
        self.nom = nom
        tf = s*dur(N-.5)
        if F.end == "whole":
            if F.sund: tf = s*dur(N-.02)
            else:
                tf = 0.0
                for _ in range(N): tf += dt
        # thrust, flow
        acc = F.acc*mu/a**2
        self.tmax = tmax = m0*acc
        mdot = {"none": 0.0, "some": .003, "strong": .04}[F.flow]*m0/nom
        mmin = .03*m0
        if F.end == "tank":
            mdot *= s                                        # backward in time tanks are emptied by filling forward
            mmin = m0*(1-.04*3.6) if F.flow == "strong" else m0*(1-.003*5.4) if F.flow == "some" else m0*1.5
        self.mdot, self.mmin, self.tf = mdot, mmin, tf
        # supervisor
        sc = SCEN[F.sup if s > 0 else BACK.get(F.sup, F.sup)]
        d = dict(oe0=x0, oeT=xT if F.six else xT[:5].copy(), mass0=m0, tmax=tmax, mdot=mdot, tf_max=tf, t_step=dt, mass_min=mmin)
        sk = {}
        if "duty" in sc: d["duty_cycle"] = tuple(z*nom for z in sc["duty"]); sk.update(ON=d["duty_cycle"][0], OFF=d["duty_cycle"][1])
        if "batt" in sc:
            b0, lo, hi, c, q = sc["batt"]
            d.update(battery_initial=b0, battery_capacity=(lo, hi), battery_charge_discharge_rate=(c/nom, q/nom), require_full_recharge=sc.get("full", False))
            sk.update(b0=b0, bmin=lo, bmax=hi, chg=c/nom, dis=q/nom, full=sc.get("full", False))
        self.sk = sk
        self.woe = np.array(WOE[F.weights], float)
        d["woe"] = (np.array(WOE[F.weights], float) if F.six else list(WOE[F.weights])) if F.weights else None
        self.d = d
        # settings
        P = dict(rpmin=.1*a) if not F.par else dict(rpmin=.53*a, k=2.3, m=1.7, n=3.7, r=1.6, b=.13, wp=1.7)
        if F.end == "undefined": P.update(rpmin=9*a, k=1e7)
        self.par = dict(ref.DEFPAR, **P)
        self.undefined = F.end == "undefined"
        kep = kind == "keplerian"
        lo = [1e-3*a, 1e-6, 1e-6, -1e3, -1e3, -1e9] if kep else [1e-3*a, -10, -10, -1e3, -1e3]
        hi = [1e3*a, .99, np.pi, 1e3, 1e3, 1e9] if kep else [1e3*a, 10, 10, 1e3, 1e3]
        if F.bounds == "default" and kep: lo = [.05*a, 1e-4, 1e-4, 1e-4, 1e-4, 1e-8]; hi = [1e2*a, .95, np.pi, np.inf, np.inf, np.inf]
        self.lo, self.hi = np.array(lo, float), np.array(hi, float)
        bounds = {} if F.bounds == "default" and a == 1 else dict(oe_min=lo, oe_max=hi)
        pa = 1e-5*mu/a**2
        self.field = {"none": None, "zero": Zero(), "const": Vary(np.array([.5, -.7, .6])*pa, 0, a), "vary": Vary(np.array([.5, -.7, .6])*pa, .9/nom, a)}[F.ptrb]
        self.settings = dict(mu=mu, integrator=F.integ, use_sundman=F.sund, perturbations=self.field, anomaly_grid_size=F.grid, nan_angles_threshold=F.nan,
                             verbosity=F.verb, print_frequency=3, rpmin=P["rpmin"], **{k+"_petro": self.par[k] for k in "kmnrb"}, wp=self.par["wp"], **bounds)
        # thresholds
        self.asked = []
        TU = 1/n
        def ea(t, oe, m, b): self.asked.append((float(t), np.array(oe, float), float(m), float(b))); return self.ea(t, oe, m, b)
        def er(t, oe, m, b): return self.er(t, oe, m, b)
        self.ea = lambda t, oe, m, b: .35+.3*np.sin(5*t/TU+oe[0]/a+3*m/m0+7*b)
        self.er = lambda t, oe, m, b: .3+.25*np.cos(3*t/TU-2*m/m0+oe[5]+b)
        tiny = [(1e-9, 0.0), (0.0, 5e-4), (3e-4, 1e-12)][F.target % 3]
        self.etas = {"zero": (0.0, 0.0), "abs": (.75, 0.0), "rel": (0.0, .5), "both": (.6, .4), "func": (ea, er), "tiny": tiny}[F.eta]
        # ending by tolerances: those met after some steps of the same run without them
        self.tol = np.full(5, 1e-12); self.fac = 1.0; self.relaxed = 10**6
        if F.end in ("converge", "relaxed"):
            p = build(kind, tol_oe=self.tol, relaxed_tol_factor=1.0, exit_at_relaxed=10**6, **self.settings)
            p.set_problem(**d); p.solve(*self.etas)
            self.asked.clear()
            if isinstance(self.field, Vary): self.field.calls.clear()
            K = min(7 if N < 50 else N-20, len(p.states)-1)
            err = self.err(np.array(p.states[K], float))*(1+1e-6)+1e-12*np.array([a, 1, 1, 1, 1])
            if F.end == "converge": self.tol = err; self.fac = 3.0 if F.par else 1.0; self.relaxed = 2 if F.par else 10**6
            if F.end == "relaxed": self.fac = 5.0 if F.par else 1000.0; self.tol = err/self.fac; self.relaxed = 1 if F.six else 3
        else: self.tol = self.tol*np.array([a, 1, 1, 1, 1])
        self.settings.update(tol_oe=list(self.tol) if F.six else self.tol, relaxed_tol_factor=self.fac, exit_at_relaxed=self.relaxed)
        self.frozen = {k: (np.array(v, float).copy() if not (v is None or isinstance(v, bool)) else v, type(v)) for k, v in d.items()}

    def err(self, y):
        d = np.abs(y[:5]-self.xT)
        if self.kind == "keplerian":
            for q in (3, 4): d[q] = abs(ref.angdiff(y[q], self.xT[q]))
        return d

    def solve(self, reuse=None):
        f = self.f; reuse = f["reuse"] if reuse is None else reuse
        p = build(self.kind, **self.settings)
        if reuse != "fresh":
            if reuse == "other problem":
                k = self.k0.copy(); k[0] *= 1.1; k[1] *= .9; k[5] += 2
                p.set_problem(ref.to_kind(self.kind, k), ref.to_kind(self.kind, np.append(self.kT, 0))[:5]*1.01, self.m0*1.3, self.tmax*.7, self.m0*.01/self.nom, self.f["sgn"]*self.nom*6.5, self.dt,
                              mass_min=.012, woe=[.3, 1, 1, 2, 1], duty_cycle=(.5*self.nom, 1.5*self.nom), battery_initial=.8, battery_capacity=(.1, .9),
                              battery_charge_discharge_rate=(.05/self.nom, .06/self.nom) if self.f["sgn"] > 0 else (0.0, 0.0), require_full_recharge=True)
                p.solve(.1, .1)
            else:
                p.set_problem(**self.d); p.solve(.9, .9)
            self.asked.clear()
            if isinstance(self.field, Vary): self.field.calls.clear()
        p.set_problem(**self.d); p.solve(*self.etas)
        self.p = p
        self.X = [np.array(x, float) for x in p.states]
        c = lambda x: np.concatenate((np.minimum(np.maximum(self.lo[:5], x[:5]), self.hi[:5]), x[5:])) if self.kind == "keplerian" else x
        self.clipped = [not np.array_equal(c(x), x) for x in self.X]
        self.n_steps = len(p.times)-1
        return p

    def supervisor(self): return Supervisor(**self.sk)

    def availability(self):
        """(available, duration) of each step by the model, with the recorded times; one more entry for the step that was not taken"""
        s = self.supervisor(); out = []
        for j in range(len(self.p.times)):
            s.sync(self.p.battery[j])
            av, h = s.begin(self.p.times[j], self.requested(j))
            out.append((av, h, s.short))
            if j < self.n_steps: s.end(self.p.times[j+1]-self.p.times[j])
        return out

    def requested(self, j): return requested(self.p, j, self.kind, self.sund)
    def accel(self, j): return self.tmax/self.p.masses[j]
    def key(self): return tuple(self.f.values())


def play(case, r, oracle, **kw):
    """runs the rows of a case and hands each run to the oracle; oracle returns a message (or (message, details)) or None"""
    oracles = oracle if isinstance(oracle, tuple) else (oracle,)
    for f in case["feat"]:
        run = Run(f, case["N"])
        run.solve()
        r.n += 1; r.traces += 1
        for j in range(run.n_steps):
            k = (run.key(), j)
            r.states.add(hash(k)); r.trans.add(hash(k + (run.p.controls[j][2],)))
        r.tag("combination")
        for o in oracles:
            e = o(run, r)
            if not e: continue
            m, d = e if isinstance(e, tuple) else (e, {})
            r.bad("%s" % m, key=m[:40], features=f, steps=run.n_steps, exit=run.p.exitcode, **d)
            return
    r.sample = dict(features=f, steps=run.n_steps, exit=run.p.exitcode)


# ---------------------------------------------------------------- what is expected, by property
def outcome(R, r):
    """C01"""
    p, f = R.p, R.f
    av = R.availability()
    on = R.woe > 0
    nrel = nnan = 0
    want = None
    for j in range(R.n_steps+1):
        if not abs(p.times[j]) < abs(R.tf): want = (j, -2); break
        if R.undefined and av[j][0]:
            nnan += 1
            if nnan > f["nan"]: want = (j, -3); break
        if j == R.n_steps: break
        d = R.err(R.X[j+1])
        for lim in (R.tol, R.fac*R.tol):
            if np.any(on & (np.abs(d-lim) < 1e-9*lim)): r.tag("borderline"); return
        ok, okr = bool(np.all(d[on] <= R.tol[on])), bool(np.all(d[on] <= R.fac*R.tol[on]))
        nrel += okr
        if ok: want = (j+1, 1); break
        if okr and nrel >= R.relaxed: want = (j+1, 2); break
        if p.masses[j+1] <= R.mmin: want = (j+1, -1); break
    got = (R.n_steps, p.exitcode)
    r.tag("exit%d" % p.exitcode)
    if got != want or p.converge != (got[1] in (1, 2)):
        return "run ended with (steps, code, flag) = %s, expected %s" % (got+(p.converge,), want), dict(times=p.times, masses=p.masses, errors=[R.err(x) for x in R.X], tol=R.tol, fac=R.fac, relaxed=R.relaxed)


def shape(R, r):
    """C03"""
    from .core import Res
    from .checks.c03 import check
    q = Res()
    check(R.p, q, dict(R.d, oe0=R.x0), not R.sund and "b0" not in R.sk)
    if q.viol: return q.viol[0]["msg"], q.viol[0]["detail"]


def durations(R, r):
    """C03, C11: every step lasts as requested, or up to the moment the battery is empty"""
    p = R.p
    for j, (a, h, short) in enumerate(R.availability()[:-1]):
        if R.clipped[j]: r.tag("clipped"); continue
        got = p.times[j+1]-p.times[j]
        r.tag("short" if short else "angle" if R.sund else "fixed")
        if abs(got-h) > 1e-9*abs(h)+1e-13*abs(p.times[j+1]): return "step lasts %.15g, expected %.15g" % (got, h), dict(step=j, times=p.times, battery=p.battery)


def ledger(R, r):
    """C04"""
    p = R.p
    m, t = np.array(p.masses, float), np.array(p.times, float)
    for j in range(R.n_steps):
        thr = p.controls[j][2]
        want = m[j]-R.mdot*(t[j+1]-t[j])*thr
        r.tag("thrust" if thr else "coast")
        if abs(m[j+1]-want) > 1e-12*(m[j]+abs(R.mdot*t[j+1])): return "mass after a %s step is %.15g, expected %.15g" % ("thrusting" if thr else "coasting", m[j+1], want), dict(step=j, masses=m, times=t, throttle=[u[2] for u in p.controls], mdot=R.mdot)


def external(R, j): return R.field.at(R.p.times[j], R.X[j]) if isinstance(R.field, Vary) else np.zeros(3)


def thrust_seen(R, r):
    """C04: thrust over the mass at the start of the step, seen through the motion"""
    if R.f["h"] > .1: return
    for j in range(R.n_steps):
        if R.clipped[j]: continue
        al, be, thr = R.p.controls[j]
        h = R.p.times[j+1]-R.p.times[j]; x = R.X[j]
        B, D = ref.gauss(R.kind, x, R.mu)
        sc = np.array([R.a, 1, 1, 1, 1])
        dx = (R.X[j+1][:5]-x[:5]-B[:5] @ external(R, j)*h)/sc
        full = B[:5] @ ref.dir_of(al, be)*h/sc
        w = full @ full
        A = R.accel(j)
        lim = .02 + 1e-13/(A*np.sqrt(w))
        # input matrix varies over the step
        B1, _ = ref.gauss(R.kind, ref.coast(R.kind, x, R.mu, h), R.mu)
        Bm, _ = ref.gauss(R.kind, ref.coast(R.kind, x, R.mu, h/2), R.mu)
        var = (np.linalg.norm((B1-B)[:5]/sc[:, None]) + np.linalg.norm((Bm-B)[:5]/sc[:, None]))*abs(h)
        lim += 1.2*var/np.sqrt(w)*(1 + np.linalg.norm(external(R, j))/A)
        if R.f["acc"] > 1e-3: lim += 3*A*abs(h)*np.linalg.norm(B[:5]/sc[:, None])*10
        acc = float(dx @ full/w)/A
        r.tag("accel" if lim < .1 else "accel blunt")
        if abs(acc-thr) > lim: return "apparent thrust acceleration is %.6g of thrust over mass, throttle %d" % (acc, thr), dict(step=j, limit=lim, masses=R.p.masses)


def motion(R, r):
    """C05"""
    if R.f["h"] > .1: return
    p, kind, mu = R.p, R.kind, R.mu
    to, fro = ref.CONV[kind]
    sc = np.array([R.a, 1, 1, 1, 1, 1])
    if isinstance(R.field, Vary):
        want = [(p.times[j], R.X[j]) for j in range(R.n_steps)]
        got = R.field.calls
        for j, (t, x) in enumerate(want):
            if R.clipped[j]: continue
            if not any(g[0] == t and np.array_equal(g[1], x) and g[2] == kind for g in got):
                return "the perturbation model was not asked about the start of the step", dict(step=j, got=got[j] if j < len(got) else None, want=(t, x, kind))
    for j in range(R.n_steps):
        if R.clipped[j]: continue
        x, y = R.X[j], R.X[j+1]
        h = p.times[j+1]-p.times[j]
        al, be, thr = p.controls[j]
        u = thr*R.accel(j)*ref.dir_of(al, be) + external(R, j)
        amag = np.linalg.norm(u)
        wh = R.wmax*1.1*abs(h)
        z0 = ref.coast(kind, x, mu, h)
        if amag == 0:
            r.tag("coasting")
            if np.any(np.abs(y[:5]-x[:5]) > 1e-13*(np.abs(x[:5])+sc[:5])): return "coasting changed a slow element", dict(before=x, after=y, dt=h, step=j)
            if not abs(y[5]-z0[5]) <= .2*wh**5+1e-11: return "coasting anomaly is off by %.3g" % (y[5]-z0[5]), dict(before=x, after=y, dt=h, step=j)
            continue
        r.tag("driven")
        rv = ref.newton(to(x, mu), mu, u, h, 10)
        z = np.real(fro(rv, mu))
        for k in (3, 4, 5) if kind == "keplerian" else (5,): z[k] = y[k] + ref.angdiff(z[k], y[k])
        B0, D0 = ref.gauss(kind, x, mu)
        M = np.zeros(6)
        for s in (.2, .4, .6, .8, 1.0):
            B, _ = ref.gauss(kind, ref.coast(kind, x, mu, s*h), mu)
            M = np.maximum(M, np.linalg.norm(B-B0, axis=1))
        ah = amag*abs(h)
        nB = np.linalg.norm(B0/sc[:, None])
        tol = 1.05*M*ah + 1e-12*(sc+np.abs(x)) + 5*(ah*nB)**2*sc
        e = ref.elem2kep(kind, x)[1]
        tol[5] += .2*wh**5 + 3*wh*ah*np.linalg.norm(B0[:5]/np.array([R.a, 1-e, 1, 1, 1])[:, None])
        d = np.abs(y-z)
        if not np.all(d <= tol):
            return "%s step does not follow the recorded controls: error %s, bound %s" % (kind, d, tol), dict(step=j, before=x, after=y, want=z, direction=ref.dir_of(al, be), acceleration=u, dt=h, effect=B0 @ u*h)


def law(R, j):
    """(gradient, input matrix, quotient) at the start of step j"""
    x = R.X[j]
    g = ref.grad(R.kind, x, R.xT, R.woe, R.mu, R.accel(j), R.par)
    return g


def steering(R, r):
    """C06: recorded directions"""
    if R.undefined: return
    av = R.availability()
    for j in range(R.n_steps):
        if R.clipped[j] or not av[j][0]: continue
        u, rate, D = ref.steer(R.kind, R.X[j], R.xT, R.woe, R.mu, R.accel(j), R.par)
        if not np.all(np.isfinite(u)) or rate == 0: continue
        g = law(R, j); B, _ = ref.gauss(R.kind, R.X[j], R.mu)
        cond = np.linalg.norm(np.abs(B[:5]).T @ np.abs(g))/np.linalg.norm(D)
        d = ref.dir_of(*R.p.controls[j][:2])
        r.tag("steer")
        if np.linalg.norm(d-R.f["sgn"]*u) > 1e-7+1e-9*cond: return "recorded direction %s is not that of steepest descent %s" % (d, R.f["sgn"]*u), dict(step=j, state=R.X[j], mass=R.p.masses[j])
        if abs(abs(R.p.dQdts[j])-rate) > (1e-7+1e-9*cond)*rate: return "recorded rate %.12g, steepest descent gives %.12g" % (R.p.dQdts[j], rate), dict(step=j, mass=R.p.masses[j])


def quotients(R, r):
    """C07: recorded quotients, in every step whether or not the engine is available"""
    if R.undefined: return
    for j in range(R.n_steps):
        if R.clipped[j]: continue
        want = float(np.real(ref.quotient(R.kind, R.X[j], R.xT, R.woe, R.mu, R.accel(j), R.par)))
        r.tag("quotient"); r.tag("quotient off" if R.p.controls[j][2] == 0 else "quotient on")
        if not abs(R.p.Qs[j]-want) <= 1e-8*abs(want): return "recorded quotient %.15g is not that of the recorded state and mass %.15g" % (R.p.Qs[j], want), dict(step=j, masses=R.p.masses, throttle=[u[2] for u in R.p.controls])


def effectivity(R, r):
    """C08"""
    if R.undefined: return
    from .checks.c08 import rates
    p = R.p; av = R.availability()
    for j in range(R.n_steps):
        thr = int(p.controls[j][2])
        if not av[j][0]:
            if thr: return "thrust while the engine is not available", dict(step=j)
            continue
        x, m = R.X[j], p.masses[j]
        a = (p.times[j], x, m, p.battery[j])
        if callable(R.etas[0]):
            if R.clipped[j]: continue
            if not any(g[0] == a[0] and np.array_equal(g[1], x) and g[2] == m and g[3] == a[3] for g in R.asked):
                return "threshold function was not called with the values at the start of the step", dict(step=j, got=R.asked[-1:], want=a)
            want = np.array([R.ea(*a), R.er(*a)])
        else: want = np.array(R.etas)
        if R.clipped[j]: continue
        if not np.allclose(np.array(p.etas_bounds[j], float), want, rtol=1e-12, atol=0): return "recorded thresholds are not those in force", dict(step=j, got=p.etas_bounds[j], want=want)
        if not np.any(want > 0):
            r.tag("no threshold")
            if not thr: return "engine coasts with both thresholds zero", dict(step=j)
            continue
        got = np.array(p.etas[j], float)
        if not np.all(np.isfinite(got)): return "effectivities %s recorded with thresholds %s" % (got, want), dict(step=j)
        cur, hi, lo = rates(R.kind, x, R.xT, R.woe, R.mu, R.accel(j), R.par, R.f["grid"])
        if hi-lo < 1e-3*hi: r.tag("flat"); continue
        v = np.array([cur/hi, (cur-lo)/(hi-lo)])
        tol = 1e-6*hi/(hi-lo)
        r.tag("eta")
        if not np.all(np.abs(got-v) <= tol): return "recorded effectivities %s, best/worst over the revolution give %s" % (got, v), dict(step=j, rates=(cur, hi, lo))
        if np.all(np.abs(v-want) > tol+1e-9) or np.all((v > want+tol+1e-9) | (want <= 0)):
            exp = int(np.all((v >= want) | (want <= 0)))
            r.tag("eta thrust" if thr else "eta coast")
            if thr != exp: return "engine %s although effectivities are %s and thresholds %s" % ("thrusts" if thr else "coasts", v, want), dict(step=j)


def available(R, r):
    """C09, C10: battery levels, availability and what keeps the engine off"""
    p = R.p; s = R.supervisor()
    for j in range(R.n_steps+1):
        if abs(p.battery[j]-s.b) > 1e-9: return "battery level %.15g, expected %.15g" % (p.battery[j], s.b), dict(step=j, battery=p.battery, times=p.times)
        if j == R.n_steps: break
        s.sync(p.battery[j])
        a, h = s.begin(p.times[j], R.requested(j))
        thr = p.controls[j][2]
        r.tag("available" if a else "unavailable"); r.tag("cut short", int(s.short))
        if thr and (not a or R.undefined): return "thrust although the engine is not available", dict(step=j, battery=p.battery, times=p.times)
        if a and not thr and not R.undefined and not np.any(np.array(p.etas_bounds[j], float) > 0): return "engine off although available and no threshold set", dict(step=j, battery=p.battery, times=p.times)
        if not R.clipped[j] and abs(p.times[j+1]-p.times[j]-h) > 1e-9*abs(h)+1e-13*abs(p.times[j+1]): return "step lasts %.15g, expected %.15g" % (p.times[j+1]-p.times[j], h), dict(step=j)
        s.end(p.times[j+1]-p.times[j])


def repeatable(R, r):
    """C02: same run on a fresh object, inputs intact"""
    h = hist(R.p)
    for k, (v, ty) in R.frozen.items():
        if type(R.d[k]) is not ty or (v is not None and not np.array_equal(np.array(R.d[k], float), np.array(v, float))): return "argument %s was modified" % k, dict(was=v, now=R.d[k])
    if not np.array_equal(h["states"][0], R.x0): return "first recorded state is not the initial state", dict(got=h["states"][0], want=R.x0)
    R.solve("fresh")
    d = same(hist(R.p), h)
    r.tag(R.f["reuse"])
    if d: return "a run depends on what the object did before: " + "; ".join(d)[:500]
    for q in ("times", "states", "masses", "battery", "controls", "etas", "etas_bounds", "Qs", "dQdts"):
        if len(getattr(R.p, q)) and np.shares_memory(np.asarray(getattr(R.p, q)[-1]), np.asarray(R.d["oe0"])) and R.n_steps: return "recorded %s share memory with the arguments" % q


def neutral(R, r):
    """C23: a twin with every option that should not matter set differently"""
    f = dict(R.f); h = hist(R.p)
    f["verb"] = {0: 3, 1: 0, 3: 1}[f["verb"]]
    f["ptrb"] = {"none": "zero", "zero": "none"}.get(f["ptrb"], f["ptrb"])
    T = Run(f, R.N)
    T.settings["print_frequency"] = 1
    T.settings.update(tol_oe=R.tol, relaxed_tol_factor=R.fac, exit_at_relaxed=R.relaxed); T.tol = R.tol
    if f["eta"] == "zero": T.settings["anomaly_grid_size"] = 3
    T.d = dict(R.d); T.d["oeT"] = np.append(R.xT, 77.0) if not f["six"] else R.xT.copy()
    T.d["woe"] = tuple(R.woe)
    if not callable(T.etas[0]): a, b = T.etas; T.etas = (lambda t, oe, m, bt: a, lambda t, oe, m, bt: b)
    if "ON" not in R.sk: T.d["duty_cycle"] = [1e9*R.nom, .25*R.nom]
    if "b0" not in R.sk and f["eta"] != "func": T.d.update(battery_initial=1.0, battery_capacity=[.2, 1.0], battery_charge_discharge_rate=[1e-5/R.nom, 1e-5/R.nom if f["sgn"] > 0 else 0.0], require_full_recharge=True)
    p = T.solve()
    ks = ["times", "states", "masses", "controls", "Qs", "dQdts", "exitcode", "converge"] + ([] if f["eta"] == "zero" and T.settings["anomaly_grid_size"] == 3 else ["etas"]) + ["bounds"] + (["battery"] if "b0" in R.sk else [])
    r.tag("twin")
    d = same(hist(p), h, keys=ks)
    if d: return "an option that should not matter changes the run: " + "; ".join(d)[:500], dict(settings=T.settings)


def exported(R, r):
    """C18"""
    p = R.p; n = R.n_steps
    for angles in (False, True):
        D = p.save_to_dict(None, save_control_angles=angles)
        S = np.array(D["states"], float); C = np.array(D["controls"], float)
        r.tag("export")
        if list(D["times"]) != list(p.times) or D["tf"] != p.times[-1] or S.shape != (n+1, 7) or C.shape != (n+1, 3 if angles else 4): return "exported times or shapes are wrong", dict(shapes=(S.shape, C.shape))
        if not np.array_equal(S[:, 6], np.array(p.masses, float)): return "exported masses are not the recorded ones"
        for j, x in enumerate(R.X):
            rv = ref.CONV[R.kind][0](x, R.mu); q = ref.mee2rv(S[j, :6], R.mu)
            if np.linalg.norm((q-rv)[:3]) > 1e-10*R.a*3 or np.linalg.norm((q-rv)[3:]) > 1e-10*np.linalg.norm(rv[3:])*3: return "exported elements are another state", dict(step=j, state=x, exported=S[j])
        c = np.array(p.controls, float).reshape(-1, 3)
        want = np.vstack([c, np.zeros(3)]) if angles else np.array([np.append(ref.dir_of(a, b), t) for a, b, t in c] + [[0, 1, 0, 0]])
        if np.abs(C-want).max() > 1e-14: return "exported controls are not the recorded ones", dict(angles=angles)
    cart = p.get_cartesian_history()
    for j, x in enumerate(R.X):
        rv = ref.CONV[R.kind][0](x, R.mu)
        if np.linalg.norm((cart[:, j]-rv)[:3]) > 1e-10*R.a*3 or np.linalg.norm((cart[:, j]-rv)[3:]) > 1e-10*np.linalg.norm(rv[3:])*3: return "Cartesian history is another state", dict(step=j)


def scaled(R, r):
    """C21: the same problem in other units; angles shifted by full turns"""
    h = hist(R.p)
    if np.any(np.abs(np.abs(h["times"])-abs(R.tf)) < 1e-9*abs(R.tf)) and not (R.f["end"] == "whole" and not R.sund and "b0" not in R.sk): r.tag("borderline"); return
    f = dict(R.f); f["size"] = (f["size"]+1+f["target"]) % 5
    T = Run(f, R.N)
    T.tol = R.tol*np.array([T.a/R.a, 1, 1, 1, 1]); T.settings.update(tol_oe=T.tol, relaxed_tol_factor=R.fac, exit_at_relaxed=R.relaxed)
    T.solve()
    g = hist(T.p)
    if h["exitcode"] != g["exitcode"] or len(h["times"]) != len(g["times"]): return "outcome depends on the units: (steps, code) = %s and %s" % ((len(h["times"])-1, h["exitcode"]), (len(g["times"])-1, g["exitcode"])), dict(other=SIZES[f["size"]])
    r.tag("units")
    uT = R.n/T.n; uL = T.a/R.a
    rep = [("times", uT), ("states", np.array([uL, 1, 1, 1, 1, 1])), ("masses", T.m0/R.m0), ("battery", 1.0), ("bounds", 1.0)]
    for k, u in rep:
        x, y = h[k]*u, g[k]
        if x.shape != y.shape or not np.array_equal(np.isnan(x), np.isnan(y)): return "%s have another shape in other units" % k
        s = np.nanmax(np.abs(y), axis=0) if len(y) else 1.0
        if len(y) and np.nanmax(np.abs(x-y)/(s+1e-30)) > 1e-8: return "%s depend on the units" % k, dict(got=y, want=x)
    if not np.array_equal(h["controls"][:, 2], g["controls"][:, 2]): return "throttle depends on the units", dict(a=h["controls"], b=g["controls"])
    if not R.undefined:
        for j in range(R.n_steps):
            if np.linalg.norm(ref.dir_of(*h["controls"][j][:2])-ref.dir_of(*g["controls"][j][:2])) > 1e-6: return "directions depend on the units", dict(step=j)
