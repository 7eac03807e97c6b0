"""C18: exported results."""
import itertools, json, os
import numpy as np
from scipy.interpolate import interp1d
from .. import ref, features
from ..prob import build, warm_run, wide, hist, same

LEVEL = "exploration"
RULE = ("runs over element set x integrator x direction x stepping x scenario (thrust, effectivity coasts, duty cycle, undefined steering, battery, no step at "
        "all, one step) x orbit; each is exported in every form and every entry compared with the recorded history through independent conversions; "
        "non-trivial = recorded step exported")
BOUNDS = dict(quick="2 x 2 x 2 x 2 settings x 8 scenarios x 9 orbits, up to 40 steps, all export options", thorough="2 x 2 x 2 x 2 settings x 8 scenarios x 64 orbits, up to 120 steps, all export options")
ASSUME = ["interpolation: at least three recorded times, and steps small enough for the recorded states to be smooth"]
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = {"json": 100, "between": 500, "coast": 200, "thrust": 200, "empty": 10}
SC = ["thrust", "eta", "duty", "undef", "battery", "zero", "one", "few"]


def _cases(tier):
    q = tier == "quick"
    return [dict(kind=k, integ=i, sgn=s, sund=u, sc=sc, q=q) for k in ("mee_with_a", "keplerian") for i in ("rk4", "rkf45") for s in (1, -1) for u in (False, True) for sc in SC
            if not (sc == "battery" and s < 0)] + [dict(kind=k, integ=i, sgn=s, sund=False, sc="long", q=q) for k, i, s in (("mee_with_a", "rk4", 1), ("keplerian", "rk4", -1))]


def warm():
    warm_run()
    for k in ("mee_with_a", "keplerian"):
        p = build(k, **wide(k)); p.set_problem(ref.to_kind(k, [1, .2, .3, .4, .5, .6]), ref.to_kind(k, [1.2, .2, .3, .4, .5, .6])[:5], 1.0, 1e-3, 1e-3, .35, .1); p.solve()
        p.save_to_dict(None); p.get_cartesian_history(); p.get_cartesian_history(True, 4)


def orbits(q):
    if q: return list(itertools.product((.05, .3, .6), (.2, 1.2, 2.6), (.5,), (2.4,), (1.0,))) 
    return list(itertools.product((.02, .2, .45, .7), (.1, .8, 1.6, 2.8), (.5, 4.0), (2.4, 5.5), (1.0,)))


def cases(tier): return list(_cases(tier)) + features.cases(tier)


def run_case(c, r):
    if "feat" in c: return features.play(c, r, features.exported)
    kind, sc, q = c["kind"], c["sc"], c["q"]
    und = sc == "undef"
    mu = 1.0 if c["sund"] else 1.7
    p = build(kind, mu=mu, integrator=c["integ"], use_sundman=c["sund"], anomaly_grid_size=3, nan_angles_threshold=10**6, **dict(wide(kind), **(dict(k_petro=1e7, rpmin=5.0) if und else {})))
    dt = c["sgn"]*(.11 if not c["sund"] else .14)
    for no, (e, i, O, w, th) in enumerate(orbits(q)):
        if q and c["integ"] == "rkf45" and no % 3: continue
        if sc == "long" and no != 4: continue
        N = {"zero": 0, "one": 1, "few": 2+no % 6, "long": 3000 if q else 12000}.get(sc, (40 if q else 120)//(2 if c["sund"] else 1))
        x0 = ref.to_kind(kind, [1.0, e, i, O, w+e, th+3*e]); xT = ref.to_kind(kind, [1.2, e+.1, i+.15, O+.4, w-.3, 0])[:5]
        kw = dict(duty=dict(duty_cycle=(.5, .4)), battery=dict(battery_initial=.6, battery_capacity=(.2, .9), battery_charge_discharge_rate=(.3, .35))).get(sc, {})
        p.set_problem(x0, xT, 1.7, 8e-3, 2e-2, (N-.5)*abs(dt)*(1 if not c["sund"] else .6) if N else 0.0, dt, **kw)
        if sc == "long": p.tmax, p.mdot = 1e-4, 1e-5
        p.solve(.5 if sc == "eta" else 0.0, .3 if sc == "eta" else 0.0)
        h = hist(p)
        if not check(p, h, kind, mu, c, r, fine=not no): r.viol[-1]["detail"].update(orbit=(e, i, O, w, th)); return
        d = same(hist(p), h)
        if d: r.bad("exporting changed the recorded histories", key="changed", diff=d); return
    r.sample = dict({k: c[k] for k in ("kind", "integ", "sgn", "sund", "sc")}, steps=len(p.times)-1)


def bad(r, m, **k): r.bad(m, key=m[:40], **k); return False


def check(p, h, kind, mu, c, r, fine=False):
    n = len(h["times"])-1
    f = os.path.join(os.environ["VERIF_SCRATCH"], "c18-%d.json" % os.getpid())
    rv = np.array([ref.CONV[kind][0](x, mu) for x in h["states"]])
    r.tag("empty", int(n == 0))
    for angles, path, cu in itertools.product((False, True), (None, f), (None, {"LU": 2.5, "TU": 1.5, "MU": 1.0})):
        if os.path.exists(f): os.remove(f)
        if path and cu is None: p.save_to_dict(path, canonical_units={"LU": 9.9, "other": [1, 2]}, save_control_angles=not angles)      # an older file is replaced
        d = p.save_to_dict(path, canonical_units=cu, save_control_angles=angles)
        got = [d]
        if path:
            with open(f) as fh: got.append(json.load(fh))
            r.tag("json")
        elif os.path.exists(f): return bad(r, "a file was written without a path")
        for D in got:
            if set(D) != {"t0", "tf", "times", "canonical_units", "states", "controls"}: return bad(r, "exported dictionary has other keys", keys=sorted(D))
            if D["t0"] != 0 or D["tf"] != h["times"][-1] or not np.array_equal(np.array(D["times"], float), h["times"]) or D["canonical_units"] != cu:
                return bad(r, "exported times or units are not the recorded ones", tf=D["tf"], times=D["times"], units=D["canonical_units"])
            S = np.array(D["states"], float)
            if S.shape != (n+1, 7): return bad(r, "exported states have the wrong shape", shape=S.shape, times=n+1)
            if not np.array_equal(S[:, 6], h["masses"]): return bad(r, "exported masses are not the recorded ones", got=S[:, 6], want=h["masses"])
            for j in range(n+1):
                z = ref.mee2rv(S[j, :6], mu)
                if np.linalg.norm((z-rv[j])[:3]) > 1e-11*np.linalg.norm(rv[j][:3]) or np.linalg.norm((z-rv[j])[3:]) > 1e-11*np.linalg.norm(rv[j][3:]):
                    return bad(r, "exported state is not the recorded one as equinoctial elements", recorded=h["states"][j], exported=S[j])
            U = np.array(D["controls"], float)
            if U.shape != (n+1, 3 if angles else 4): return bad(r, "exported controls have the wrong shape", shape=U.shape, times=n+1)
            thr = np.append(h["controls"][:, 2], 0.0)
            if not np.array_equal(U[:, -1], thr): return bad(r, "exported throttle is not the recorded one padded with a coast", got=U[:, -1], want=thr)
            if angles:
                if not np.array_equal(U[:-1, :2], h["controls"][:, :2]) or not np.all(np.isfinite(U)): return bad(r, "exported angles are not the recorded ones", got=U[:, :2], want=h["controls"][:, :2])
            else:
                W = np.array([ref.dir_of(*u[:2]) for u in h["controls"]]).reshape(-1, 3)
                if not np.allclose(U[:-1, :3], W, rtol=0, atol=1e-14) or not np.allclose(np.linalg.norm(U[:, :3], axis=1), 1, atol=1e-12): return bad(r, "exported directions are not the recorded ones", got=U[:, :3], want=W)
        r.n += 1; r.nt += n
    r.tag("coast", int(np.sum(h["controls"][:, 2] == 0))); r.tag("thrust", int(np.sum(h["controls"][:, 2] == 1)))
    # Cartesian history
    C = p.get_cartesian_history()
    C2, te = p.get_cartesian_history(get_t_evals=True)
    sp, sv = np.linalg.norm(rv[:, :3], axis=1), np.linalg.norm(rv[:, 3:], axis=1)
    err = lambda A, B: max(np.max(np.linalg.norm((A-B)[:3], axis=0)/sp.max()), np.max(np.linalg.norm((A-B)[3:], axis=0)/sv.max()))
    for A in (C, C2):
        if A.shape != (6, n+1) or err(A, rv.T) > 1e-12: return bad(r, "Cartesian history is not the recorded states", got=A, want=rv.T)
    r.n += 1
    if n < 3: return True
    for k in ("quadratic", "cubic", "linear"):
        fs = p.interpolate_states(kind=k)
        for j in range(0, n+1, 3):
            v = np.array([float(g(h["times"][j])) for g in fs])
            if np.max(np.abs(v-h["states"][j])) > 1e-9: return bad(r, "interpolated states miss a recorded state", step=j, got=v, want=h["states"][j], interpolation=k)
    for k, steps in (("quadratic", n+1), ("quadratic", None), ("cubic", 23), ("linear", 2), ("quadratic", 7)) + ((("quadratic", 1501), ("cubic", 1200)) if fine else ()):
        A, te = p.get_cartesian_history(interpolate=True, steps=steps, kind=k, get_t_evals=True)
        B = p.get_cartesian_history(interpolate=True, steps=steps, kind=k)
        te = np.asarray(te, float)
        if not np.array_equal(A, B): return bad(r, "interpolated Cartesian history depends on whether times are returned")
        if A.shape != (6, len(te)) or (steps is not None and len(te) != steps): return bad(r, "interpolated history has the wrong number of points", shape=A.shape, steps=steps)
        if abs(te[0]-h["times"][0]) > 1e-12 or abs(te[-1]-h["times"][-1]) > 1e-12*abs(te[-1]): return bad(r, "evaluation times do not span the transfer", first=te[0], last=te[-1], tf=h["times"][-1])
        if np.any(np.diff(te)*c["sgn"] <= 0): return bad(r, "evaluation times are not ordered along the transfer")
        if err(A[:, [0, -1]], rv[[0, -1]].T) > 1e-9: return bad(r, "interpolated history does not start and end at the recorded endpoints", got=A[:, [0, -1]], want=rv[[0, -1]].T)
        want = interp1d(h["times"], h["states"].T, kind=k)
        for m, t in enumerate(te):
            z = ref.CONV[kind][0](want(min(max(t, min(h["times"])), max(h["times"]))), mu)
            if max(np.linalg.norm((A[:, m]-z)[:3])/sp.max(), np.linalg.norm((A[:, m]-z)[3:])/sv.max()) > 1e-8:
                return bad(r, "interpolated history is not the %s interpolant of the recorded states" % k, t=t, got=A[:, m], want=z, times=h["times"])
            r.tag("interpolant")
        # in between: from the last recorded state before, by two-body motion (thrust bends it by less than the tolerance)
        T = h["times"]*c["sgn"]; D = np.diff(T).max()
        e = np.max([ref.elem2kep(kind, x)[1] for x in h["states"]])
        wmax = np.sqrt(mu/((1-e*e)*.8)**3)*(1+e)**2
        for m, t in enumerate(te):
            j = min(int(np.searchsorted(T, t*c["sgn"]+1e-13, side="right"))-1, n)
            z = ref.CONV[kind][0](ref.coast(kind, h["states"][j], mu, t-h["times"][j]), mu)
            tol = {"quadratic": .6, "cubic": .6, "linear": 1.2}[k]*(wmax*D)**(2 if k == "linear" else 3)*(1+e)/(1-e) + 20*8e-3*D*D
            d = max(np.linalg.norm((A[:, m]-z)[:3])/sp.max(), np.linalg.norm((A[:, m]-z)[3:])/sv.max())
            r.tag("between")
            if d > max(tol, 1e-3): return bad(r, "interpolated history is far from the recorded states", t=t, error=d, tolerance=tol, kind=k)
        r.n += 1
    return True
