"""C23: options that should not matter."""
import itertools
import numpy as np
from .. import ref, features
from ..prob import build, hist, same, warm_run, wide, Zero, HKEYS

LEVEL = "exploration"
RULE = ("every setting (element set x integrator x direction x stepping) x scenario (ending in each exit code, with thresholds, duty cycle or battery) x orbit "
        "is run on the real code with every value of every neutral option alone, and with every pair of (the first non-default values of) two different "
        "neutral options together; the complete histories are compared with those of the plain run; printing helpers are called before and after and every attribute "
        "of the object is compared; non-trivial = run with a thrusting step")
BOUNDS = dict(quick="2x2x2x2 settings x 8 scenarios x 2 orbits, 40 option values in 12 groups, 66 pairs; 20 steps",
              thorough="2x2x2x2 settings x 8 scenarios x 10 orbits, 40 option values in 12 groups, all pairs of values of different groups; 40 steps")
ASSUME = []
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = {"exit1": 200, "exit2": 200, "exit-1": 200, "exit-2": 1000, "exit-3": 100, "pair": 1000, "printing": 100}
SCEN = ["free", "eta", "duty", "battery", "reach", "relax", "mass", "nan"]


def _cases(tier):
    q = tier == "quick"
    return [dict(kind=k, integ=i, sgn=s, sund=u, sc=sc, orbit=n, q=q)
            for k, i, s, u in itertools.product(("mee_with_a", "keplerian"), ("rk4", "rkf45"), (1, -1), (False, True)) for sc in SCEN
            if not (s < 0 and sc in ("battery", "mass")) for n in range(2 if q else 10)]


def warm(): warm_run()


class ZeroList:
    """zero again, as another sequence and with state"""
    def __init__(self): self.calls = 0
    def get_perturbations_RTN(self, t, oe, elements_type): self.calls += 1; return np.array([0.0, -0.0, 0.0])


def options(c, b, bk, N):
    """groups of neutral options: each value is (build arguments, problem arguments, thresholds, histories that may differ)"""
    kind, sc = c["kind"], c["sc"]; w = wide(kind)
    G = {}
    G["verbosity"] = [(dict(verbosity=v), {}, None, ()) for v in (1, 2, 3)]
    G["print_frequency"] = [(dict(verbosity=2, print_frequency=f), {}, None, ()) for f in (1, 7)] + [(dict(print_frequency=1), {}, None, ())]
    G["perturbations"] = [(dict(perturbations=Zero()), {}, None, ()), (dict(perturbations=ZeroList()), {}, None, ())]
    if sc != "eta":
        G["grid"] = [(dict(anomaly_grid_size=n), {}, None, ()) for n in (2, 11, 64)]
    e = bk["eta"]
    G["thresholds"] = [({}, {}, (lambda t, oe, m, b: e[0], lambda t, oe, m, b: e[1]), ()), ({}, {}, (e[0], lambda *z: e[1]), ()), ({}, {}, (lambda *z: e[0], e[1]), ())]
    T = abs(b["tf_max"])
    if sc not in ("duty", "mass", "battery"):
        G["duty"] = [({}, dict(duty_cycle=d), None, ()) for d in ((1e16, 5.0), (50*T, 0.0), (1e3, 1e3), [1e9, .1], (float("inf"), 1.0))]
    if sc != "battery" and c["sgn"] > 0:
        G["battery"] = [({}, dict(battery_capacity=(0.0, 1.0)), None, ()), ({}, dict(battery_capacity=(-3.0, 7.0)), None, ()),
                        ({}, dict(battery_initial=.9), None, ("battery",)),
                        ({}, dict(battery_initial=1e6, battery_capacity=(10.0, 2e6), battery_charge_discharge_rate=(.1, .3)), None, ("battery",)),
                        ({}, dict(battery_capacity=(.1, 1.0), battery_charge_discharge_rate=(.3, 0.0)), None, ()),
                        ({}, dict(require_full_recharge=True), None, ())]
    tol, woe = bk["tol"], b["woe"]
    G["tolerances"] = [(dict(tol_oe=f(tol)), {}, None, ()) for f in (tuple, np.array, lambda v: [np.float64(z) for z in v])]
    G["weights"] = [({}, dict(woe=f(woe)), None, ()) for f in (tuple, np.array, lambda v: [np.float64(z) for z in v])]
    G["target"] = [({}, dict(oeT=np.append(b["oeT"], z)), None, ()) for z in (0.0, 2.7, -55.0)]
    W = []
    for f in (.5, 10.0, 1e4):
        lo, hi = np.array(w["oe_min"], float), np.array(w["oe_max"], float)
        if kind == "keplerian": lo = lo*[1/f, 1/f, 1/f, f, f, f]; hi = hi*[f, 1.005, 1.0, f, f, f]
        else: lo, hi = lo*f, hi*f; lo[0] = .01/f
        W.append((dict(oe_min=lo, oe_max=hi), {}, None, ()))
        W.append((dict(oe_min=list(lo), oe_max=tuple(hi)), {}, None, ()))
    G["bounds"] = W
    return G


def base(c, k0, no):
    kind, sc, s, q = c["kind"], c["sc"], c["sgn"], c["q"]
    kT = [1.3, k0[1]*.8, k0[2]+.15, k0[3]+.5, k0[4]-.6]
    if no % 2: kT = [.8, k0[1]+.1, k0[2]-.05, k0[3]+1.6, k0[4]+1.0]
    if sc in ("reach", "relax"): kT[0] = 1.06 if no % 2 else .94
    N = 20 if q else 40
    tol = [2e-3, 2e-3, 2e-3, 2e-3, 3e-3]; woe = [1.0, .7, 2.0, .3, .2]; eta = (0.0, 0.0); kw = {}
    b = dict(tmax=.03, mdot=.02, tf_max=(N-.5)*.2*s, t_step=.2*s)
    if sc == "eta": eta = (.45, .3)
    if sc == "duty": b["duty_cycle"] = (.71, .33)
    if sc == "battery": b.update(duty_cycle=(1.9, .5), battery_initial=.55, battery_capacity=(.3, .8), battery_charge_discharge_rate=(.4, .31), require_full_recharge=no % 2 == 0)
    if sc == "mass": b.update(mdot=.3, mass_min=.8, duty_cycle=(.7, .3))
    if sc == "reach": woe = [1.0, 0., 0., 0., 0.]; tol[0] = .05
    if sc == "relax": woe = [1.0, 0., 0., 0., 0.]; tol[0] = .01
    if sc == "nan": kw = dict(k_petro=1e7, rpmin=2.0, nan_angles_threshold=5)
    x0, xT = ref.to_kind(kind, k0), ref.to_kind(kind, kT+[0.])[:5]
    b.update(oe0=x0, oeT=xT, mass0=1.0, woe=woe)
    bk = dict(eta=eta, tol=tol, args=dict(integrator=c["integ"], use_sundman=c["sund"], anomaly_grid_size=5, tol_oe=tol, relaxed_tol_factor=6.0, exit_at_relaxed=2, **kw, **wide(kind)))
    return b, bk, N


def attrs(p):
    out = {}
    for k, v in p.__dict__.items():
        if callable(v): out[k] = getattr(v, "__func__", v)
        elif v is None or isinstance(v, (bool, str)): out[k] = v
        else:
            try: out[k] = (type(v), np.array(v, float).tobytes())
            except Exception: out[k] = repr(v)
    return out


def show(p, r, solved):
    a = attrs(p)
    p.pretty_settings(); p.pretty()
    if solved: p.pretty_results()
    r.tag("printing"); r.n += 1
    z = attrs(p)
    d = [k for k in set(a) | set(z) if a.get(k, 0) != z.get(k, 0)]
    if d: r.bad("printing changed %s" % d, key="printing"); return False
    return True


def cases(tier): return list(_cases(tier)) + features.cases(tier)


def run_case(c, r):
    if "feat" in c: return features.play(c, r, features.neutral)
    q = c["q"]; no = c["orbit"]
    k0 = list(itertools.product([.12, .5] if q else [.05, .2, .35, .5, .65], [.4, 1.3]))[no*3 % 4 if q else no]
    k0 = [1.0, k0[0], k0[1], .7+no, 1.9+no, .4+2.9*no]
    b, bk, N = base(c, k0, no)
    def run(*opts, prints=False):
        ka, kb, eta, skip = dict(bk["args"]), {k: (v.copy() if hasattr(v, "copy") else v) for k, v in b.items()}, bk["eta"], set()
        for o in opts:
            ka.update(o[0]); kb.update(o[1]); skip |= set(o[3])
            if o[2]: eta = o[2]
        p = build(c["kind"], **ka)
        if prints: p.pretty_settings()
        p.set_problem(**kb)
        if prints and not show(p, r, False): return None, skip
        p.solve(*eta)
        if prints and not show(p, r, True): return None, skip
        return hist(p), skip
    H, _ = run()
    N = len(H["controls"])
    thr = bool(N and np.any(H["controls"][:, 2] == 1))

    def compare(names, *opts, **kw):
        h, skip = run(*opts, **kw)
        if h is None: return True
        r.n += 1; r.nt += thr; r.tag("exit%d" % h["exitcode"])
        d = same(h, H, tol=1e-12, keys=[k for k in HKEYS if k not in skip])
        if d: r.bad("%s changes the result: %s" % (names, "; ".join(d)[:500]), key=names, options=repr([o[:2] for o in opts])[:600], orbit=k0); return True

    G = options(c, b, bk, N)
    if compare("printing", prints=True): return
    for g, vals in G.items():
        for v in vals:
            if compare(g, v): return
    for (g1, v1), (g2, v2) in itertools.combinations(G.items(), 2):
        P = [(v1[-1], v2[0])] if q else list(itertools.product(v1, v2))
        for a, z in P:
            r.tag("pair")
            if compare("%s with %s" % (g1, g2), a, z): return
    r.sample = dict(kind=c["kind"], integrator=c["integ"], scenario=c["sc"], options={g: len(v) for g, v in G.items()})
