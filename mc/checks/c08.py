"""C08: effectivities and the decisions they imply."""
import itertools
import numpy as np
from .. import ref, features
from ..prob import build, warm_run, wide, hist, same

LEVEL = "exploration"
RULE = ("every orbit/target of the lattice x element set x direction x grid size x threshold pattern; for each recorded step the best and worst descent "
        "rates are recomputed from Gauss's equations and the complex-step gradient of the documented quotient, compared with the recorded ratios, and "
        "the decision is probed with thresholds just below and just above each ratio; callable thresholds depend on all four arguments; non-trivial = "
        "step with a positive threshold")
BOUNDS = dict(quick="36 orbits x 3 targets/weights per element set, grid sizes 2, 5, 8, 6 steps each; one orbit for grids of up to 1000", thorough="144 orbits x 6 targets/weights per element set, grid sizes 2, 3, 5, 8, 20, 10 steps each; one orbit for grids of up to 2048")
ASSUME = ["at least two evaluation anomalies"]
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = {"at the best anomaly": 10, "coast": 300, "thrust": 300, "probe": 500, "callable": 300, "rejected": 5}
WOE = [[1, 1, 1, 1, 1], [1, .2, 2, 0, 0], [0, 1, 3, .5, .1], [1, 0, 0, 0, 0], [.3, 1, 0, 1, 0], [0, 0, 1, 0, 0]]


def _cases(tier):
    q = tier == "quick"
    out = []
    for kind, s in itertools.product(("mee_with_a", "keplerian"), (1, -1)):
        for n in (2, 5, 8) if q else (2, 3, 5, 8, 20):
            for part in range(6 if q else 24): out.append(dict(kind=kind, sgn=s, n=n, part=part, parts=6 if q else 24, q=q))
        # fine grids
        for n in (17, 64, 121, 360, 1000) if q else (13, 17, 31, 64, 101, 121, 257, 360, 721, 1000, 2048): out.append(dict(kind=kind, sgn=s, n=n, part=n % 36, parts=36, q=True))
        out.append(dict(kind=kind, sgn=s, args=True))
    return out


def warm():
    warm_run()
    for k in ("keplerian", "mee_with_a"): build(k)


def orbits(q):
    g = itertools.product([.05, .4, .75], [.3, 1.5], [.6, 3.9], [.2, 2.3, 4.4]) if q else itertools.product([.03, .2, .5, .8], [.1, .9, 1.5, 2.5], [.6, 2.2, 3.9], [.2, 2.3, 4.4])
    return [[1.0, e, i, 1.1*th+.3, w, th] for e, i, w, th in g]


def rates(kind, x, xT, woe, mu, acc, par, n):
    g = ref.grad(kind, x, xT, woe, mu, acc, par)
    out = []
    for L in np.linspace(x[5], x[5]+2*np.pi, n+1)[1:]:
        y = x.copy(); y[5] = L
        out.append(ref.steer(kind, y, xT, woe, mu, acc, par, g=g)[1])
    return ref.steer(kind, x, xT, woe, mu, acc, par, g=g)[1], max(out), min(out)


def cases(tier): return list(_cases(tier)) + features.cases(tier)


def run_case(c, r):
    if "feat" in c: return features.play(c, r, features.effectivity)
    if "args" in c: return kinds_of_thresholds(c, r)
    kind, n, q = c["kind"], c["n"], c["q"]
    par = dict(ref.DEFPAR)
    mu = 1.3
    dt = .3*c["sgn"]; N = 6 if q else 10
    p = build(kind, mu=mu, anomaly_grid_size=n, **wide(kind))
    for no, k0 in enumerate(orbits(q)):
        if no % c["parts"] != c["part"]: continue
        for nt in range(3 if q else 6):
            woe = WOE[(no+nt*2+(c["sgn"] > 0)) % 6]
            kT = np.array([[1.4, k0[1]*.7, k0[2]+.2, k0[3]+.6, k0[4]-.4, 0], [.8, min(k0[1]+.15, .8), k0[2]-.05, k0[3]-.3, k0[4]+1.0, 0], [1.05, k0[1]+.02, k0[2]+.4, k0[3]+2.5, k0[4], 0]][nt % 3])
            x0, xT = ref.to_kind(kind, k0), ref.to_kind(kind, kT)[:5]
            prob = dict(oe0=x0, oeT=xT, mass0=3.0, tmax=.02, mdot=.05, tf_max=(N-.5)*dt, t_step=dt, woe=woe, battery_charge_discharge_rate=(.01, .02))
            if c["sgn"] < 0: prob.pop("battery_charge_discharge_rate")
            p.set_problem(**prob)
            # --- decisions with thresholds that depend on everything
            asked = []
            def ea(t, oe, m, b): asked.append((float(t), np.array(oe, float), float(m), float(b))); return .35+.3*np.sin(5*t+oe[0]+3*m+7*b)
            def er(t, oe, m, b): return .3+.25*np.cos(3*t-2*m+oe[5]+b)
            variant = (no+nt) % 3
            etas = [(ea, er), (.45, er), (ea, .25)][variant]
            p.solve(*etas)
            k = 0
            vals = []
            for j in range(len(p.times)-1):
                x, m = np.array(p.states[j], float), p.masses[j]
                a = (p.times[j], x, m, p.battery[j])
                want = [f(*a) if callable(f) else f for f in etas]
                if variant != 1:
                    asked.pop()                                  # our own call
                    if not (asked[j][0] == a[0] and np.array_equal(asked[j][1], x) and asked[j][2] == m and asked[j][3] == a[3]):
                        r.bad("threshold function was not called with the values at the start of the step", key="args", got=asked[j], want=a); return
                r.tag("callable")
                cur, hi, lo = rates(kind, x, xT, woe, mu, prob["tmax"]/m, par, n)
                if (hi-lo) < 1e-3*hi: continue
                v = np.array([cur/hi, (cur-lo)/(hi-lo)])
                got = np.array(p.etas[j], float)
                r.n += 1; r.nt += 1
                if not np.allclose(np.array(p.etas_bounds[j], float), want, rtol=1e-12, atol=0): r.bad("recorded thresholds are not those in force", key="bounds", got=p.etas_bounds[j], want=want); return
                tol = 1e-6*hi/(hi-lo)
                if not np.all(np.abs(got-v) <= tol): r.bad("recorded effectivities %s, best/worst over the revolution give %s" % (got, v), key="eta", state=x, target=xT, woe=woe, rates=(cur, hi, lo), grid=n); return
                if np.any(got < -1e-9) or np.any(got > 1+1e-9): r.bad("effectivity outside [0, 1]: %s" % got, key="range"); return
                thr = int(p.controls[j][2])
                if np.all(np.abs(v-want) > tol+1e-9):
                    exp = int(v[0] >= want[0] and v[1] >= want[1])
                    r.tag("thrust" if thr else "coast")
                    if thr != exp: r.bad("engine %s although effectivities are %s and thresholds %s" % ("thrusts" if thr else "coasts", v, want), key="decision", state=x, step=j); return
                vals.append(v)
            # --- each threshold alone, just below and just above the first step's ratio
            x = x0
            cur, hi, lo = rates(kind, x, xT, woe, mu, prob["tmax"]/3.0, par, n)
            if hi-lo < 1e-2*hi: continue
            v = cur/hi, (cur-lo)/(hi-lo)
            p.set_problem(**dict(prob, tf_max=.5*dt))
            for i, f in itertools.product((0, 1), (1-1e-4, 1+1e-4)):
                if v[i] < 1e-3 or (f > 1 and v[i]*f > .99999): continue
                for other in (0.0, .5*v[1-i] if v[1-i] > 1e-3 else 0.0):
                    et = [0.0, 0.0]; et[i] = float(v[i]*f); et[1-i] = float(other)
                    p.solve(*et)
                    r.n += 1; r.nt += 1; r.tag("probe")
                    if p.controls[0][2] != int(f < 1): r.bad("threshold %s of %.9g with effectivity %.9g: throttle %s" % ("ar"[i], et[i], v[i], p.controls[0][2]), key="decision", state=x, target=xT, woe=woe, grid=n); return
            best = v[0] > 1-1e-9
            r.tag("at the best anomaly", int(best))
            for i, f, other in itertools.product((0, 1), (1+1e-3, 1.5, 1e6, np.inf) + ((1-1e-6,) if best else ()), (0.0, .2)):
                et = [other, other]; et[i] = f
                if f < 1 and other > min(v): continue
                for et in (et, [(lambda *z, e=e: e) for e in et]):
                    p.solve(*et); r.n += 1; r.nt += 1
                    if p.controls[0][2] != int(f < 1): r.bad("threshold %s of %.9g with effectivity %.9g: throttle %s" % ("ar"[i], f, v[i], p.controls[0][2]), key="decision", state=x, target=xT, woe=woe, grid=n); return
            # a negative threshold is always met
            p.solve(-.5, float(v[1]*.9)); p_ = p.controls[0][2]; p.solve(float(v[0]*.9), -2.0)
            if not (p_ == p.controls[0][2] == 1) and min(v) > 1e-3: r.bad("a negative threshold is not met", key="negative", state=x); return
            p.set_problem(**dict(prob, tf_max=2.5*dt))
            p.solve(0.0, 0.0)
            if any(u[2] != 1 for u in p.controls): r.bad("engine coasts with both thresholds zero", key="zero", state=x); return
            r.tag("zero")
    r.sample = dict(kind=kind, sgn=c["sgn"], grid=n, orbit=k0, target=kT, woe=woe)


def kinds_of_thresholds(c, r):
    kind = c["kind"]; dt = .2*c["sgn"]
    x0 = ref.to_kind(kind, [1.0, .3, .5, .4, 1.0, .3]); xT = ref.to_kind(kind, [1.3, .2, .7, .8, 1.4, 0])[:5]
    p = build(kind, **wide(kind))
    for a, b in itertools.product((0.0, .3, .6), (0.0, .2, .7)):
        p.set_problem(x0, xT, 2.0, .01, .02, 20.3*dt, dt)
        p.solve(a, b); h = hist(p)
        for ea, er in ((lambda *z: a, b), (a, lambda *z: b), (lambda *z: a, lambda *z: b), (np.float64(a), np.float64(b)), (_Const(a), _Const(b).method)):
            p.set_problem(x0, xT, 2.0, .01, .02, 20.3*dt, dt)
            p.solve(ea, er); r.n += 1; r.nt += 1
            d = same(hist(p), h)
            if d: r.bad("a constant function does not act like the number: %s" % "; ".join(d)[:300], key="constant", eta=(a, b)); return
    for bad in (0, 1, "0.1", None, [.1], (.1,), {}, 1j, True, np.array([.1]), np.int64(1)):
        for et in ((bad, 0.0), (0.0, bad), (bad, .3), (.3, bad), (lambda *z: .1, bad)):
            p.set_problem(x0, xT, 2.0, .01, .02, 2.3*dt, dt)
            try: p.solve(*et)
            except Exception: r.tag("rejected"); r.n += 1; continue
            r.bad("threshold %r accepted" % (et,), key="kind"); return
    r.sample = dict(kinds_of_thresholds=kind)


class _Const:
    def __init__(self, v): self.v = v
    def __call__(self, t, oe, mass, battery): return self.v
    def method(self, t, oe, mass, battery): return self.v
