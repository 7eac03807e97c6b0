"""C20: validation of settings."""
import itertools, pickle
import numpy as np
import pyqlaw
from .. import ref, prob as _prob
from ..prob import warm_run

LEVEL = "model_checking"
RULE = ("complete product of valid and invalid values of every validated constructor argument, problem argument and threshold, and every sequence of "
        "operations (attribute changes, posing, solving, each valid and invalid) on a live object up to a depth, against the acceptance model; an accepted "
        "call must store what was given, a refused one must leave every attribute as it was; state = (gravitational parameter, integrator, posed problem, "
        "outcome of last run), transition = operation with its verdict")
BOUNDS = dict(quick="constructor: 12 x 7 x 6 x 9 x 10 values; problem: 6 x 2 x 7 x 10 values on three kinds of object; sequences of length <= 4 over 16 operations",
              thorough="as quick; sequences of length <= 5")
ASSUME = []
NEED = {"ctor accepted": 100, "ctor refused": 1000, "pose accepted": 50, "pose refused": 500, "op refused": 500, "op accepted": 500}
MU = [(1.0, 1), (398600.44, 1), (1e-9, 1), (2, 1), (1e-14, 1), (3e-300, 1), (1e25, 1), (0, 0), (0.0, 0), (-1.0, 0), (-1e-12, 0), (-1e-300, 0)]
ET = [("mee_with_a", 1), ("keplerian", 1), ("mee", 0), ("", 0), ("Keplerian", 0), (None, 0), ("mee_with_a ", 0)]
IN = [("rk4", 1), ("rkf45", 1), ("RK4", 0), ("euler", 0), (None, 0), ("rk45", 0)]
TOL = [(None, 1), ([1e-3]*5, 1), (np.array([1., 2, 3, 4, 5])*1e-3, 1), ((1e-2, 1e-3, 1e-4, 1e-5, 1e-6), 1), ([1e-3]*4, 0), ([1e-3]*6, 0), ([], 0), (np.ones(1), 0), (np.ones(7), 0)]
FAC = [(1, 1), (10, 1), (1.0, 1), (2.5, 1), (1e7, 1), (1+1e-12, 1), (1-1e-9, 0), (.999, 0), (0, 0), (-3.0, 0)]


def cases(tier):
    d = 4 if tier == "quick" else 5
    return [dict(ctor=a, b=b) for a in range(len(MU)) for b in range(len(ET))] + [dict(pose=k, prior=p) for k in ("mee_with_a", "keplerian") for p in (0, 1, 2)] + \
        [dict(seq=k, first=o, depth=d) for k in ("mee_with_a", "keplerian") for o in range(len(OPS))] + [dict(attrs=1)]


def warm(): warm_run()


def snap(p):
    out = {}
    for k, v in vars(p).items():
        if callable(v): continue
        try: out[k] = pickle.dumps(v)
        except Exception: out[k] = repr(v).encode()
    return out


def changed(a, b): return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def eq(a, b):
    if b is None or a is None: return a is b
    try: return bool(np.array_equal(np.asarray(a, float), np.asarray(b, float)))
    except Exception: return a == b


def run_case(c, r):
    if "ctor" in c: return ctor(c, r)
    if "pose" in c: return pose(c, r)
    if "attrs" in c: return attrs(r)
    return seq(c, r)


def ctor(c, r):
    (mu, g0), (et, g1) = MU[c["ctor"]], ET[c["b"]]
    for (it, g2), (tol, g3), (fac, g4) in itertools.product(IN, TOL, FAC):
        good = all((g0, g1, g2, g3, g4))
        kw = dict(mu=mu, elements_type=et, integrator=it, tol_oe=tol, relaxed_tol_factor=fac, verbosity=0)
        r.n += 1; r.ntrans += 1
        try: p = pyqlaw.QLaw(**kw)
        except Exception as e:
            r.tag("ctor refused")
            if good: r.bad("well-posed settings refused: %r" % e, key="ctor", settings=kw); return
            continue
        r.tag("ctor accepted")
        if not good: r.bad("ill-posed settings accepted", key="ctor", settings=kw); return
        t = [1e-3]*5 if tol is None else tol
        if p.mu != mu or p.elements_type != et or p.integrator != it or not eq(p.tol_oe, t) or not np.allclose(p.tol_oe_relaxed, fac*np.array(t, float), rtol=1e-12):
            r.bad("settings are not stored as given", key="stored", settings=kw, tol=p.tol_oe, relaxed=p.tol_oe_relaxed); return
        r.states.add(("ctor", mu, et, it, str(t), fac))
    r.traces += 1
    r.sample = dict(mu=mu, elements_type=et)


def attrs(r):
    """every other setting is stored as given"""
    base = dict(rpmin=.37, k_petro=2.5, m_petro=3.5, n_petro=4.5, r_petro=2.5, b_petro=.02, wp=.7, anomaly_grid_size=11, nan_angles_threshold=4, print_frequency=17, use_sundman=True,
                exit_at_relaxed=7, oe_min=[.1, -1, -1, -1, -1, 0], oe_max=[9., 8, 7, 6, 5, 4], perturbations=_prob.Zero(), verbosity=1)
    for kind in ("keplerian", "mee_with_a"):
        for k, v in base.items():
            p = pyqlaw.QLaw(elements_type=kind, **{k: v})
            r.n += 1; r.ntrans += 1
            if not (getattr(p, k) is v if k == "perturbations" else eq(getattr(p, k), v)): r.bad("setting %s is not stored as given" % k, key="stored", got=getattr(p, k), want=v); return
        p = pyqlaw.QLaw(elements_type=kind, **base)
        for k, v in base.items():
            if not (getattr(p, k) is v if k == "perturbations" else eq(getattr(p, k), v)): r.bad("setting %s is not stored as given" % k, key="stored", got=getattr(p, k), want=v); return
    r.traces += 1; r.states.add("attrs")


X0 = {k: ref.to_kind(k, [1.0, .2, .4, 1.0, .7, 1.6]) for k in ("mee_with_a", "keplerian")}
XT = {k: ref.to_kind(k, [1.3, .3, .5, 1.2, .9, 0.4]) for k in ("mee_with_a", "keplerian")}
OE0 = [(6, 1), (5, 0), (7, 0), (0, 0), (1, 0), (12, 0)]
OET = [(5, 1), (6, 1)]
WOE = [(None, 1), ([1.0]*5, 1), (np.array([1., 0, 2, 0, 3]), 1), ((1, 2, 3, 4, 5), 1), ([1.0]*4, 0), ([1.0]*6, 0), ([], 0)]
MMIN = [(.01, 1), (.1, 1), (1.0, 1), (25, 1), (1e6, 1), (.0100001, 1), (.00999, 0), (.0099999999, 0), (0.0, 0), (-1.0, 0)]


def obj(kind, prior):
    p = pyqlaw.QLaw(elements_type=kind, verbosity=0, anomaly_grid_size=2)
    if prior: p.set_problem(X0[kind].copy(), XT[kind][:5].copy(), 1.0, 1e-3, 1e-3, .25, .1, woe=[3, 1, 2, 1, 1])
    if prior > 1: p.solve(0.1, 0.0)
    return p


def pose(c, r):
    kind = c["pose"]
    p = obj(kind, c["prior"])
    for (n0, g0), (nT, g1), (w, g2), (mm, g3) in itertools.product(OE0, OET, WOE, MMIN):
        good = all((g0, g1, g2, g3))
        x0 = np.resize(X0[kind], n0); xT = XT[kind][:nT].copy()
        kw = dict(oe0=x0, oeT=xT, mass0=30.0+n0, tmax=.02, mdot=.03, tf_max=.4, t_step=.15, mass_min=mm, woe=w, duty_cycle=(.3, .4), battery_initial=.5, battery_capacity=(.2, .8),
                  battery_charge_discharge_rate=(.1, .2), require_full_recharge=True)
        s = snap(p); r.n += 1; r.ntrans += 1
        try: p.set_problem(**kw)
        except Exception as e:
            r.tag("pose refused")
            if good: r.bad("well-posed problem refused: %r" % e, key="pose", problem=kw); return
            d = changed(s, snap(p))
            if d: r.bad("a refused problem changed %s" % d, key="refused", problem=kw); return
            if c["prior"] == 0:                        # still nothing to solve
                try: p.solve()
                except Exception: continue
                r.bad("solving was not refused after a refused problem", key="unposed", problem=kw); return
            continue
        r.tag("pose accepted")
        if not good: r.bad("ill-posed problem accepted", key="pose", problem=kw); return
        want = dict(kw, oeT=XT[kind][:5], woe=[1.0]*5 if w is None else w)
        for k, v in want.items():
            if not eq(getattr(p, k), v): r.bad("%s is not stored as given" % k, key="stored", got=getattr(p, k), want=v); return
        r.states.add((kind, c["prior"], nT, str(w), mm))
        if c["prior"] == 0: p = obj(kind, 0)
    r.traces += 1


def _solve(*a): return lambda p, k: p.solve(*a)
def _pose(n0=6, nT=5, **kw): return lambda p, k: p.set_problem(np.resize(X0[k], n0), XT[k][:nT].copy(), kw.pop("m0", 1.0) if False else 1.0, 1e-3, 1e-3, .15, .1, **kw)
def _set(a, v): return lambda p, k: setattr(p, a, v)


OPS = [("mu=2", _set("mu", 2.0)), ("mu=.5", _set("mu", .5)), ("mu=0", _set("mu", 0.0)), ("mu=-1", _set("mu", -1)), ("type=same", lambda p, k: setattr(p, "elements_type", k)), ("type=mee", _set("elements_type", "mee")),
       ("type=None", _set("elements_type", None)), ("integ=rkf45", _set("integrator", "rkf45")), ("integ=rk4", _set("integrator", "rk4")), ("integ=euler", _set("integrator", "euler")),
       ("pose A", _pose()), ("pose B", _pose(6, 6, woe=[1, 2, 3, 4, 5], mass_min=.5)), ("pose bad", _pose(5)), ("pose badw", _pose(6, 5, woe=[1, 2])), ("solve", _solve(0.0, 0.1)),
       ("solve bad", _solve(0, 0.0)), ("solve badr", _solve(.1, "x"))]
REFUSED = {"mu=0", "mu=-1", "type=mee", "type=None", "integ=euler", "pose bad", "pose badw", "solve bad", "solve badr"}


def seq(c, r):
    kind = c["seq"]
    for n in range(c["depth"]):
        if n > 2:                                  # deeper: only sequences that keep mixing accepted and refused calls
            pool = [o for o in range(len(OPS)) if OPS[o][0] in ("mu=2", "mu=0", "integ=rkf45", "integ=euler", "pose A", "pose bad", "pose badw", "solve", "solve badr", "type=mee")]
        else: pool = range(len(OPS))
        for tail in itertools.product(pool, repeat=n):
            p = pyqlaw.QLaw(elements_type=kind, verbosity=0, anomaly_grid_size=2, integrator="rk4", mu=1.0)
            mu, it, posed, solved = 1.0, "rk4", None, None
            for o in (c["first"],)+tail:
                name, f = OPS[o]
                key = (kind, mu, it, posed, solved)
                bad = name in REFUSED or (name == "solve" and posed is None)
                s = snap(p)
                try: f(p, kind); ok = True
                except Exception as e: ok = False; err = e
                r.n += 1; r.tag("op accepted" if ok else "op refused")
                seqn = [OPS[q][0] for q in (c["first"],)+tail]
                if ok == bad: r.bad("%s was %s" % (name, "accepted" if ok else "refused: %r" % err), key="op", sequence=seqn); return
                if not ok:
                    d = changed(s, snap(p))
                    if d: r.bad("refused %s changed %s" % (name, d), key="refused", sequence=seqn); return
                elif name.startswith("mu"): mu = float(name[3:])
                elif name.startswith("integ"): it = name[6:]
                elif name.startswith("pose"): posed = name[-1]
                elif name == "solve": solved = (posed, p.exitcode, p.converge)
                if p.mu != mu or p.integrator != it or p.elements_type != kind: r.bad("attributes are (%r, %r, %r) after %s" % (p.mu, p.integrator, p.elements_type, name), key="attr", sequence=seqn); return
                if posed and not (eq(p.woe, [1]*5 if posed == "A" else [1, 2, 3, 4, 5]) and eq(p.oeT, XT[kind][:5])): r.bad("posed problem is not the last accepted one", key="posed", sequence=seqn); return
                k1 = (kind, mu, it, posed, solved)
                r.states.add(key); r.states.add(k1); r.trans.add((key, name, k1))
            r.traces += 1
    r.sample = dict(kind=kind, first=OPS[c["first"]][0], depth=c["depth"])
