"""C26: whole transfers progress as the documented law promises."""
import itertools
import numpy as np
from .. import ref
from ..prob import build, warm_run, wide

LEVEL = "exploration"
RULE = ("every setting (element set x integrator x direction x stepping) x scenario (plain, mass flow, duty cycle, external acceleration) x orbit x target: the real transfer runs until its quotient is "
        "a twentieth of the initial one; an ideal spacecraft following the documented law under Gauss's equations derived from Newton's law is simulated next to it; the times at "
        "which the quotient has fallen to 3/4, 1/2, 1/4 and 1/10 and the elements there must agree; non-trivial = mark compared")
BOUNDS = dict(quick="2x2x2x2 settings x 2 of 4 scenarios x 3 orbits x 4 targets; transfers of up to 1500 steps", thorough="2x2x2x2 settings x 4 scenarios x 6 orbits x 8 targets x 2 thrust levels; up to 6000 steps")
ASSUME = ["thrust below a hundredth of gravity, steps of a tenth of a radian", "the last tenth of a transfer, where step and chatter decide, is not compared"]
NEED = {"mark": 1000, "tenth": 200}
ORB = [(.1, .4, .7, .8, 1.6), (.5, 1.3, 2.4, 4.0, 3.6), (.3, 2.0, 5.5, 2.0, .4), (.2, .9, 4.0, 5.5, 5.9), (.6, .6, 3.0, 1.0, 2.6), (.05, 1.7, 1.2, 2.8, 4.4)]
MARKS = (.75, .5, .25, .1)


def targets(e, i, O, w):
    return [[1.3, e+.1, i+.05, O+.3, w-.2], [.8, e*.6, i-.1, O-.2, w+.3], [1.0, e+.05, i+.15, O+.1, w+.1], [1.1, e*.8, i-.05, O+.4, w-.5],
            [1.6, e*.5, i+.1, O-.1, w+.1], [.9, e+.15, i+.1, O+.2, w+.5], [1.0, e+.02, i+.3, O-.3, w], [1.2, e, i, O+.5, w-.5]]


def cases(tier):
    q = tier == "quick"
    S = ["plain", "flow", "duty", "push"]
    out = []
    for n, (k, it, s, u) in enumerate(itertools.product(("mee_with_a", "keplerian"), ("rk4", "rkf45"), (1, -1), (False, True))):
        for m, (o, t) in enumerate(itertools.product(range(3 if q else 6), range(4 if q else 8))):
            for a in ((6e-3,) if q else (1e-2, 3e-3)):
                for j, sc in enumerate(S):
                    if not q or (j+m+n) % 4 < 2: out.append(dict(kind=k, integ=it, sgn=s, sund=u, orbit=o, target=t, acc=a, sc=sc, q=q))
    return out


def warm(): warm_run()


class Push:
    def __init__(self, u): self.u = np.array(u)
    def get_perturbations_RTN(self, t, oe, kind): return self.u.copy()


def ideal(kind, x, xT, woe, mu, tmax, m, mdot, h, duty, ext, par, n):
    """times, quotients, elements of the reference spacecraft at its steps"""
    x = np.array(x, float); t = 0.0; out = []
    Q0 = None
    for _ in range(n):
        A = tmax/m
        Q = float(np.real(ref.quotient(kind, x, xT, woe, mu, A, par)))
        out.append((t, Q, x, m))
        if Q0 is None: Q0 = Q
        if Q < .08*Q0: break
        B, D = ref.gauss(kind, x, mu)
        on = (abs(t) % (duty[0]+duty[1])) <= duty[0] if duty else True
        if on:
            d = B[:5].T @ ref.grad(kind, x, xT, woe, mu, A, par)
            u = -np.sign(h)*A*d/np.linalg.norm(d)
        else: u = np.zeros(3)
        def f(y):
            B, D = ref.gauss(kind, y, mu)
            return B @ (u+ext) + D
        k1 = B @ (u+ext) + D; k2 = f(x+h/2*k1); k3 = f(x+h/2*k2); k4 = f(x+h*k3)
        x = x + h/6*(k1+2*k2+2*k3+k4); t += h
        if on: m -= mdot*h
    return out


def run_case(c, r):
    kind, s, A = c["kind"], c["sgn"], c["acc"]
    mu, a, m0 = [(1.0, 1.0, 1.0), (.8, 2.0, 3.0), (3.0, .5, .6)][(c["orbit"]+c["target"]) % 3]
    n = np.sqrt(mu/a**3); par = dict(ref.DEFPAR, rpmin=.1*a); woe = [[1, 1, 1, 1, 1], [1, 2, 1, .5, .5], [2, 1, 1, 0, 0]][c["target"] % 3]
    k0 = np.array((a,)+ORB[c["orbit"]]); kT = np.array(targets(*ORB[c["orbit"]][:4])[c["target"]]); kT[0] *= a
    x0 = ref.to_kind(kind, k0); xT = ref.to_kind(kind, np.append(kT, 0))[:5]
    tmax = A*mu/a**2*m0; dt = .1*s/n
    T = 1.0/A/n
    mdot = m0*.3/T if c["sc"] == "flow" else 0.0
    duty = (7.0/n, 3.0/n) if c["sc"] == "duty" else None
    ext = np.array([.1, -.08, .1])*A*mu/a**2 if c["sc"] == "push" else np.zeros(3)
    N = 1500 if c["q"] else 6000
    p = build(kind, mu=mu, rpmin=.1*a, integrator=c["integ"], use_sundman=c["sund"], tol_oe=[1e-9]*5, perturbations=Push(ext) if c["sc"] == "push" else None, exit_at_relaxed=10**6, **wide(kind))
    ref_run = ideal(kind, x0, xT, woe, mu, tmax, m0, mdot, dt/2, duty, ext, par, 2*N)
    tf = ref_run[-1][0]*1.06 + 4*dt
    kw = dict(duty_cycle=duty) if duty else {}
    p.set_problem(x0, xT, m0, tmax, mdot, tf, .1*s if c["sund"] else dt, mass_min=.02, woe=woe, **kw)
    p.solve(0.0, 0.0)
    ti, Qi = np.array([z[0] for z in ref_run]), np.array([z[1] for z in ref_run])
    X = np.array([np.asarray(x, float) for x in p.states]); t = np.array(p.times, float)
    Q = np.array([np.real(ref.quotient(kind, x, xT, woe, mu, tmax/m, par)) for x, m in zip(X, p.masses)])
    for f in MARKS:
        ji = np.flatnonzero(Qi < f*Qi[0])
        if not len(ji): r.tag("not reached"); continue
        ji = ji[0]; r.n += 1; r.nt += 1; r.tag("mark")
        if f == .1: r.tag("tenth")
        j = np.flatnonzero(Q < f*Q[0])
        lim = (.07 if duty else .03)*abs(ti[ji]) + 3*abs(dt)*(2.5 if c["sund"] else 1)
        got = t[j[0]] if len(j) else np.nan
        if not abs(got-ti[ji]) <= lim:
            r.bad("quotient has fallen to %g of its initial value at time %s, an ideal spacecraft takes %.6g" % (f, got, ti[ji]), key="progress", limit=lim, exit=p.exitcode, orbit=k0, target=kT, weights=woe); return
    r.sample = dict(kind=kind, integrator=c["integ"], scenario=c["sc"], orbit=k0, target=kT, steps=len(t)-1, ideal=len(ti)-1)
