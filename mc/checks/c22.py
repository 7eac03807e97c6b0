"""C22: the quotient decreases along the computed transfer at the recorded rate."""
import itertools
import numpy as np
from .. import ref
from ..prob import build, warm_run, wide

LEVEL = "exploration"
RULE = ("every setting (element set x integrator x direction x stepping) x scenario (always on, thresholds, duty cycle) x orbit x target/weights x step size, "
        "without mass flow: between consecutive records the recorded quotient must change by minus the recorded rate times the duration "
        "(to first order in the step) while thrusting, and not at all while coasting; recorded quotients are those of "
        "the recorded states; whole transfers must descend monotonically until they end or the step is no longer small; non-trivial = thrusting step")
BOUNDS = dict(quick="2x2x2x2 settings x 3 scenarios x 12 orbits x 3 targets x 2 step sizes x 12 steps; 2x2x2 settings x 6 transfers of up to 800 steps; 7 sizes of thrust, penalty and weights (rates from 1e-12 to 1e12 and beyond) x 12 settings x 18 runs",
              thorough="2x2x2x2 settings x 3 scenarios x 72 orbits x 6 targets x 3 step sizes x 30 steps; 2x2x2 settings x 24 transfers of up to 5000 steps; 7 sizes of thrust, penalty and weights x 16 settings x 432 runs")
ASSUME = ["no mass flow, no perturbation", "steps across which |cos omega| or |sin omega| has a kink are skipped (Keplerian)"]
NEED = {"thrust": 5000, "coast": 2000, "descent": 3000, "huge": 100, "tiny": 100}
WOE = [[1, 1, 1, 1, 1], [1, .2, 2, 0, 0], [0, 1, 3, .5, .1], [1, 0, 0, 0, 0], [.3, 1, 0, 1, 0], [0, 0, 1, 0, 2]]
# sizes of the rate: (maximum thrust, penalty exponent, periapsis threshold, factor of the weights)
EXT = [(1e-6, 60.0, 2.0, 1.0), (1e-8, 1.0, .1, 1.0), (2e-4, 120.0, .9, 1e6), (.02, 1.0, .1, 1e-9), (5.0, 1.0, .1, 1e-12), (1e-5, 1.0, .1, 1e12), (.01, 300.0, 1.1, 1.0)]
SET = list(itertools.product(("mee_with_a", "keplerian"), ("rk4", "rkf45"), (1, -1), (False, True)))


def cases(tier):
    q = tier == "quick"
    out = [dict(kind=k, integ=i, sgn=s, sund=u, sc=sc, h=h, part=n, q=q) for k, i, s, u in SET for sc in ("on", "eta", "duty")
           for h in ((2e-3, 1e-2) if q else (5e-4, 2e-3, 1e-2)) for n in range(1 if q else 6)]
    out += [dict(kind=k, integ=i, sgn=s, sund=u, far=n, q=q) for k, i, s, u in SET if i == "rk4" for n in range(6 if q else 24)]
    out += [dict(kind=k, integ=i, sgn=s, sund=u, ext=n, q=q) for k, i, s, u in SET for n in range(len(EXT)) if not q or i == "rk4" or not u]
    return out


def warm(): warm_run()


def orbits(q):
    g = itertools.product([.08, .5], [.3, 1.3], [.6, 2.9, 4.4]) if q else itertools.product([.03, .2, .5, .7], [.15, .8, 1.5], [.6, 2.9, 4.4], [0.2, 2.5])
    for j in g:
        e, i, th = j[:3]
        yield [1.0, e, i, .9*th+.3, 1.7*th+.4+(j[3] if len(j) > 3 else 0), th]


def targets(k0, q):
    e, i, O, w = k0[1:5]
    T = [[1.4, e*.7, i+.2, O+.6, w-.4], [.8, e+.1, i-.05, O-.3, w+1.0], [1.05, e+.02, i+.4, O+2.5, w+.1]]
    return T if q else T + [[3.0, e*.5, i+.02, O-1.5, w-2.0], [1.0, e+.2, i+.1, O, w+.3], [.6, e*.9, i+.7, O+.1, w]]


def one(c, p, r, x0, xT, woe, mu, accn, par, kind, detail):
    """checks the recorded run of p; returns False on a violation"""
    t = np.array(p.times, float); X = [np.array(x, float) for x in p.states]
    Q = np.array(p.Qs, float); D = np.array(p.dQdts, float)
    Qr = np.array([ref.quotient(kind, X[j], xT, woe, mu, accn, par) for j in range(len(Q))])
    if not np.all(np.abs(Q-Qr) <= 1e-9*np.abs(Qr)):
        j = int(np.argmax(np.abs(Q-Qr)/Qr)); r.bad("recorded quotient %.12g is not the one of the recorded state, %.12g" % (Q[j], Qr[j]), key="Q", step=j, state=X[j], **detail); return False
    for j in range(len(Q)-1):
        dt = abs(t[j+1]-t[j]); r.n += 1
        on = p.controls[j][2] == 1
        if not on:
            r.tag("coast")
            if abs(Q[j+1]-Q[j]) > 1e-11*Q[j]: r.bad("quotient changes from %.15g to %.15g over a coasting step" % (Q[j], Q[j+1]), key="coast", step=j, state=X[j], **detail); return False
            continue
        if kind == "keplerian" and (np.sign(np.cos(X[j][4])) != np.sign(np.cos(X[j+1][4])) or np.sign(np.sin(X[j][4])) != np.sign(np.sin(X[j+1][4]))): r.tag("kink"); continue
        mag = abs(D[j]); nxt = abs(D[j+1])
        if mag*dt < 1e-9*Q[j]: r.tag("flat"); continue
        r.nt += 1; r.tag("thrust")
        dQ = Q[j+1]-Q[j]
        # to first order the quotient drops at the recorded rate; the next order is how much geometry and gradient change along the step
        B, _ = ref.gauss(kind, X[j], mu)
        g0, g1 = (B[:5].T @ ref.grad(kind, X[i], xT, woe, mu, accn, par) for i in (j, j+1))
        rel = abs(nxt-mag)/mag + np.linalg.norm(g1-g0)/np.linalg.norm(g0)
        if rel > .3: r.tag("steep"); continue
        lim = rel + 20*dt*dt + 1e-6 + 1e-12*Q[j]/(mag*dt)
        err = abs(dQ + dt*mag)/(mag*dt)
        if err > lim: r.bad("quotient changes by %.9g over a thrusting step, the recorded rate gives %.9g" % (dQ, -dt*mag), key="rate", step=j, err=err, limit=lim, state=X[j], dt=dt, rates=(D[j], D[j+1]), **detail); return False
    return True


def run_case(c, r):
    if "far" in c: return far(c, r)
    if "ext" in c: return extreme(c, r)
    kind, q, s = c["kind"], c["q"], c["sgn"]
    mu = 1.3; par = dict(ref.DEFPAR, rpmin=.15); N = 12 if q else 30
    p = build(kind, mu=mu, rpmin=.15, integrator=c["integ"], use_sundman=c["sund"], anomaly_grid_size=6, tol_oe=[1e-9]*5, **wide(kind))
    for no, k0 in enumerate(orbits(q)):
        if not q and no % 6 != c["part"]: continue
        for nt, kT in enumerate(targets(k0, q)):
            woe = WOE[(no+nt*2) % 6]
            x0, xT = ref.to_kind(kind, k0), ref.to_kind(kind, kT+[0])[:5]
            h = c["h"]; eta = (0.0, 0.0); kw = {}
            if c["sc"] == "eta": eta = (.3, .55)
            if c["sc"] == "duty": kw["duty_cycle"] = (2.5*h, 1.5*h)
            p.set_problem(x0, xT, 2.0, .02, 0.0, s*h*(N-.5)*(3 if c["sund"] else 1), s*h, woe=woe, **kw)
            if c["sc"] == "eta":       # thresholds around the ratios met on the way, so that both decisions occur
                p.solve(1e-12, 1e-12)
                v = np.array(p.etas, float)
                eta = (0.0, float(np.median(v[:, 1]))) if nt % 2 else (float(np.median(v[:, 0])), 0.0)
            p.solve(*eta)
            if not one(c, p, r, x0, xT, woe, mu, .01, par, kind, dict(orbit=k0, target=kT, woe=woe, scenario=c["sc"])): return
    r.sample = dict(kind=kind, integrator=c["integ"], scenario=c["sc"], step=c["h"], orbit=k0, target=kT)


def extreme(c, r):
    """rates of every size: recorded values, and their agreement wherever the arithmetic resolves the change"""
    kind, q, s = c["kind"], c["q"], c["sgn"]
    tmax, k, rp, ws = EXT[c["ext"]]
    mu = 1.3; par = dict(ref.DEFPAR, rpmin=rp, k=k); h = 5e-3*s; N = 5 if q else 15
    p = build(kind, mu=mu, rpmin=rp, k_petro=k, integrator=c["integ"], use_sundman=c["sund"], anomaly_grid_size=3, tol_oe=[1e-9]*5, **wide(kind))
    for no, k0 in enumerate(orbits(q)):
        for nt, kT in enumerate(targets(k0, q)):
            if q and (no+nt) % 2: continue
            woe = [ws*w for w in WOE[(no+nt*2) % 6]]
            x0, xT = ref.to_kind(kind, k0), ref.to_kind(kind, kT+[0])[:5]
            p.set_problem(x0, xT, 2.0, tmax, 0.0, h*(N-.5), h, woe=woe); p.solve()
            detail = dict(orbit=k0, target=kT, woe=woe, extreme=EXT[c["ext"]])
            if not one(c, p, r, x0, xT, woe, mu, tmax/2, par, kind, detail): return
            for j in range(len(p.Qs)):
                x = np.array(p.states[j], float)
                want = ref.steer(kind, x, xT, woe, mu, tmax/2, par)[1]; got = abs(float(p.dQdts[j])); r.n += 1
                if not abs(got-want) <= 1e-7*want + 1e-300: r.bad("recorded rate %.10g, the quotient falls at %.10g" % (got, want), key="size", step=j, state=x, **detail); return
                r.tag("huge", got > 1e12); r.tag("tiny", got < 1e-9)
    r.sample = dict(kind=kind, extreme=EXT[c["ext"]], rate=got)


def far(c, r):
    """a whole transfer, always thrusting"""
    kind, q, s, n = c["kind"], c["q"], c["sgn"], c["far"]
    k0 = list(orbits(q))[(n*5) % (12 if q else 72)]; T = targets(k0, q); kT = T[n % len(T)]
    woe = WOE[n % 6]; mu = 1.0; par = dict(ref.DEFPAR)
    x0, xT = ref.to_kind(kind, k0), ref.to_kind(kind, kT+[0])[:5]
    p = build(kind, integrator=c["integ"], use_sundman=c["sund"], **wide(kind))
    dt = .1*s; N = 800 if q else 5000
    p.set_problem(x0, xT, 1.0, .005, 0.0, N*abs(dt)*s, dt, woe=woe)
    p.solve(0.0, 0.0)
    Q = np.array(p.Qs); D = np.abs(np.array(p.dQdts)); t = np.array(p.times)
    def local(j):
        x = np.array(p.states[j], float); g = ref.grad(kind, x, xT, woe, mu, .005, par)
        return x, ref.gauss(kind, x, mu)[0][:5], g
    nxt = local(0)
    for j in range(len(Q)-1):
        (x, B, g), nxt = nxt, local(j+1)
        h = abs(t[j+1]-t[j]); r.n += 1
        # a step is small if the direction and rate of descent do not change much along it
        d0, d1, d2 = B.T @ g, B.T @ nxt[2], nxt[1].T @ nxt[2]
        n0 = np.linalg.norm(d0)
        if np.linalg.norm(d1-d0) + np.linalg.norm(d2-d1) > .4*n0 or .005*n0*h > .02*Q[j]: r.tag("near"); continue
        r.nt += 1; r.tag("descent")
        if p.controls[j][2] != 1: r.bad("engine off although nothing forbids thrusting", key="off", step=j); return
        if not Q[j+1] < Q[j]: r.bad("quotient rises from %.12g to %.12g while thrusting" % (Q[j], Q[j+1]), key="rise", step=j, state=x, orbit=k0, target=kT, woe=woe); return
    r.sample = dict(kind=kind, orbit=k0, target=kT, woe=woe, steps=len(Q), quotient=[Q[0], Q[-1]], exit=p.exitcode)
