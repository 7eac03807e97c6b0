"""C19: plots read back."""
import itertools, os
import numpy as np
import pyqlaw
from .. import ref, features
from ..prob import build, warm_run, wide, hist, same

LEVEL = "exploration"
RULE = ("every plotting method x every combination of its options (units, conversion, overlays, interpolation) x element set x scenario of run; the data of the "
        "drawn artists is read back from matplotlib and compared with the recorded histories through independent conversions; helpers over radii, centres, "
        "resolutions and limits; non-trivial = artist compared")
BOUNDS = dict(quick="2 element sets x 5 scenarios (and 3 further orbits for the element plots) x all options with 2 unit systems; 24 sequences of three runs on one object; helpers: 6 radii x 7 centres x 3 resolutions, 10 limit triples x 3 scales",
              thorough="2 element sets x 2 steppings x 5 scenarios x 4 orbits x all options with 3 unit systems; 96 sequences of three runs on one object; helpers as quick")
ASSUME = ["matplotlib draws the data its artists hold"]
RULE += features.RULE
BOUNDS = {k: v + features.AT[k] for k, v in BOUNDS.items()}
NEED = {"elements": 20, "controls": 10, "battery": 5, "eff": 5, "Q": 5, "2d": 5, "3d": 5, "sphere": 10, "axis": 10, "turn": 20, "again": 60}
SC = ["thrust", "eta", "duty", "battery", "back"]


def _cases(tier):
    q = tier == "quick"
    return [dict(kind=k, sc=s, plot=p, sund=u, orb=o, q=q) for k in ("mee_with_a", "keplerian") for s in SC for p in ("elements", "controls", "battery", "eff", "Q", "2d", "3d")
            for u in ((False,) if q else (False, True)) for o in ((3,) if q else range(3, 7))] + [dict(kind='mee_with_a', sc=s, plot='elements', sund=False, orb=o, q=q) for o in range(3) for s in ('thrust', 'back')] + [dict(kind=k, sc='long', plot=p, sund=False, orb=3, q=q) for k in ('mee_with_a', 'keplerian') for p in ('elements', 'controls', 'battery', 'eff', 'Q', '2d', '3d')] + [dict(again=j, kind=k, sund=False, orb=o, sc='thrust', q=q) for k in ('mee_with_a', 'keplerian') for j in range(12) for o in ((3,) if q else range(3, 7))] + [dict(helper=h) for h in ("sphere", "axis")]


def warm():
    warm_run()
    import matplotlib.pyplot as plt
    for k in ("mee_with_a", "keplerian"):
        p = run(dict(kind=k, sc="thrust", sund=False, orb=3))
        p.plot_trajectory_3d(interpolate=False); p.plot_elements_history(to_keplerian=True); plt.close("all")


ORB = [(.3, .9, -1.0, -.8, 3.3), (.3, .9, 2.0, -.7, 1.3), (.4, .9, -2.2, 1.4, 2.0)] + [(.3, .5, .8, 2.2, 3.3), (.1, 1.2, 4.0, .4, .2), (.55, .3, 2.0, 5.5, 2.4), (.2, 2.2, 5.8, 3.6, 5.0)]


def run(c):
    kind = c["kind"]
    e, i, O, w, th = ORB[c["orb"]]
    p = build(kind, mu=1.4, use_sundman=c["sund"], anomaly_grid_size=4, tol_oe=[2e-3, 3e-3, 4e-3, 5e-3, 6e-3], **wide(kind))
    s = -1 if c["sc"] == "back" else 1
    x0 = ref.to_kind(kind, [1.1, e, i, O, w, th]); xT = ref.to_kind(kind, [1.5, e+.1, i+.2, O+.3, w+.2, 0])
    kw = dict(duty=dict(duty_cycle=(.6, .4)), battery=dict(battery_initial=.6, battery_capacity=(.25, .9), battery_charge_discharge_rate=(.3, .35))).get(c["sc"], {})
    p.set_problem(x0, xT if c["sc"] == "duty" else xT[:5], 1.7, 2e-2, 3e-2, 9.0, .2*s, woe=[1, 1, 1, .5, .5], **kw)
    if c["sc"] == "long": p.tmax, p.mdot, p.tf_max, p.t_step = 1e-4, 1e-5, 4500*.15, .15
    p.solve(.6 if c["sc"] in ("eta", "back", "long") else 0.0, .4 if c["sc"] == "eta" else 0.0)
    return p


def cases(tier): return list(_cases(tier)) + features.cases(tier, per=4, t=3 if tier == "quick" else 4, long=False)


PLOTS = ["elements", "controls", "battery", "eff", "Q", "two", "three"]


def drawn(R, r):
    """all plots of a run of the covering array, each with one choice of its options"""
    import matplotlib.pyplot as plt
    p = R.p
    if R.n_steps < 4: r.tag("too short"); return
    n = sum(ord(z) for v in R.f.values() for z in str(v))
    h = hist(p)
    from ..core import Res
    for k, pl in enumerate(PLOTS):
        q = Res()
        if R.clipped[0] and pl == "elements": continue
        try: globals()["p_"+pl](p, h, dict(kind=R.kind, few=n+k*5, scale=R.a, q=True), q, [(1.0, "TU"), (13.5, "days")])
        finally: plt.close("all")
        r.n += q.n; r.nt += q.nt
        for t, m in q.tags.items(): r.tag(t, m)
        if q.viol: return pl+": "+q.viol[0]["msg"], q.viol[0]["detail"]
    d = same(hist(p), h)
    if d: return "plotting changed the histories", dict(diff=d)


def few(c, options):
    o = list(options)
    return [o[c["few"] % len(o)]] if "few" in c else o


def run_case(c, r):
    if "feat" in c: return features.play(c, r, drawn)
    if "again" in c: return again(c, r)
    if "helper" in c: return sphere(r) if c["helper"] == "sphere" else axis(r)
    import matplotlib.pyplot as plt
    p = run(c)
    h = hist(p)
    units = [(1.0, "TU"), (13.5, "days")] + ([] if c["q"] else [(1e-3, "ks")])
    try: globals()["p_"+{"2d": "two", "3d": "three"}.get(c["plot"], c["plot"])](p, h, c, r, units)
    finally: plt.close("all")
    d = same(hist(p), h)
    if d: r.bad("plotting changed the histories", key="changed", diff=d)
    r.sample = {k: c[k] for k in ("kind", "sc", "plot", "sund", "orb")}


def again(c, r):
    """every plot of a run, then of a second run on the same object whose problem differs in one component"""
    import matplotlib.pyplot as plt
    p = run(c); j = c["again"]
    x0, xT = np.array(p.oe0, float), np.array(p.oeT, float)[:5]
    for n in range(3):
        if n:
            y0, yT = x0.copy(), xT.copy(); v = (y0, yT)[j//6] if j < 11 else None
            if n == 1 and v is not None: v[j % 6] += .07
            if n == 1 and v is None: p.mu = 1.6
            if n == 2: p.mu = 1.4
            p.set_problem(y0, yT, 1.7, 2e-2, 3e-2, 4.0, .2, woe=[1, 1, 1, .5, .5]); p.solve()
        h = hist(p)
        for k, pl in enumerate(PLOTS):
            try: globals()["p_"+pl](p, h, dict(c, few=7*n+5*k+j, scale=1.0), r, [(1.0, "TU"), (13.5, "days")])
            finally: plt.close("all")
            if r.viol: r.viol[-1]["detail"]["run"] = n; return
        r.tag("again")
    r.sample = dict(c)


def deg(x): return np.asarray(x)*180/np.pi


def close(a, b, mod=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape: return False
    d = a-b
    if mod: d = (d+mod/2) % mod - mod/2
    bad = np.isnan(a) != np.isnan(b)
    return not bad.any() and bool(np.all(np.abs(np.nan_to_num(d)) <= 1e-8*(1+np.abs(np.nan_to_num(b)))))


def find(lines, x, y, mod=None):
    return [l for l in lines if close(l.get_xdata(), x) and close(l.get_ydata(), y, mod)]


def need(r, ax, x, y, what, mod=None, n=1, **k):
    r.n += 1; r.nt += 1
    L = find(ax.get_lines(), x, y, mod)
    if len(L) < n:
        got = [(np.asarray(l.get_xdata(), float)[:4], np.asarray(l.get_ydata(), float)[:4]) for l in ax.get_lines()]
        r.bad("%s not drawn as recorded" % what, key=what, want=(np.asarray(x)[:4], np.asarray(y)[:4]), drawn=got, **k); return None
    return L[0]


def only(r, ax, ys, x, what, mod=None):
    """no other history-like line in these axes"""
    for l in ax.get_lines():
        if len(l.get_xdata()) > 2 and not any(close(l.get_xdata(), x) and close(l.get_ydata(), y, mod) for y in ys):
            r.bad("%s: something else is drawn" % what, key=what+" extra", drawn=np.asarray(l.get_ydata(), float)[:6])


def p_elements(p, h, c, r, units):
    kind = c["kind"]; kep = kind == "keplerian"
    K = np.array([ref.rv2kep(ref.CONV[kind][0](x, p.mu), p.mu).real for x in h["states"]])
    KT = ref.rv2kep(ref.CONV[kind][0](np.append(np.array(p.oeT, float), 0.0), p.mu), p.mu).real
    for (TU, name), tk, mass, peri in few(c, itertools.product(units, (False, True), (True, False), (False, True))):
        fig, axs = p.plot_elements_history(to_keplerian=tk, TU=TU, time_unit_name=name, plot_mass=mass, plot_periapsis=peri)
        A = fig.axes; t = h["times"]*TU
        conv = tk and not kep
        r.tag("elements")
        for j in range(5):
            ang = conv and j > 1
            y = K[:, j]*(180/np.pi if ang else 1) if conv else h["states"][:, j]
            if need(r, A[j], t, y, "element %d" % j, 360.0 if ang else None, converted=conv, TU=TU) is None: return
            ys = [y]
            if j == 0 and peri:
                rp = K[:, 0]*(1-K[:, 1])
                if need(r, A[j], t, rp, "periapsis") is None: return
                ys.append(rp)
            only(r, A[j], ys, t, "element %d" % j, 360.0 if ang else None)
            if name not in A[j].get_xlabel(): r.bad("time unit is not named", key="unit", label=A[j].get_xlabel()); return
            tgt = (KT[j]*(180/np.pi if ang else 1)) if conv else float(p.oeT[j])
            lev = [float(np.asarray(l.get_ydata(), float)[0]) for l in A[j].get_lines() if len(l.get_xdata()) == 2]
            bands = [v for col in A[j].collections for v in [np.concatenate([q.vertices for q in col.get_paths()])]]
            ok = any(close([v], [tgt], 360.0 if ang else None) for v in lev) or \
                any(close([b[:, 1].min(), b[:, 1].max()], [tgt-p.tol_oe[j], tgt+p.tol_oe[j]]) and close([b[:, 0].min(), b[:, 0].max()], [t.min(), t.max()]) for b in bands)
            if ang and "few" not in c and not clear(y, tgt, lev, bands, A[j], t, j, r): return
            if not ok: r.bad("target of element %d is not drawn" % j, key="target", want=tgt, levels=lev, bands=[(b[:, 1].min(), b[:, 1].max()) for b in bands], converted=conv); return
        if mass: ok = need(r, A[5], t, h["masses"], "mass")
        else: ok = need(r, A[5], t, deg(K[:, 5] if conv else h["states"][:, 5]), "anomaly", 360.0)
        if ok is None: return
        plt_close(fig)


def clear(y, tgt, lev, bands, ax, t, j, r):
    """away from the ends of either usual range of angles, target and history are drawn on the same turn"""
    v = np.append(y, tgt); m = v % 360
    if min(np.min(np.abs((v+90) % 180-90)), 999) < 15 or m.max()-m.min() > 90: return True      # near 0 or 180 degrees
    L = [l for l in ax.get_lines() if close(l.get_xdata(), t)]
    drawn = np.asarray(L[0].get_ydata(), float)
    near_ = lev + [b[:, 1].mean() for b in bands]
    r.tag("turn")
    if not any(np.all(np.abs(drawn-z) < 91) for z in near_): r.bad("element %d and its target are drawn on different turns" % j, key="turn", drawn=drawn[:4], target=near_); return False
    return True


def plt_close(fig):
    import matplotlib.pyplot as plt
    plt.close(fig)


def p_controls(p, h, c, r, units):
    for (TU, name), show in few(c, itertools.product(units, (True, False))):
        fig, ax = p.plot_controls(TU=TU, time_unit_name=name, show_anomaly=show)
        t = h["times"]*TU
        r.tag("controls")
        for j, what in enumerate(("alpha", "beta")):
            if need(r, ax, t[:-1], deg(h["controls"][:, j]), what) is None: return
        if need(r, ax, t[:-1], 100*h["controls"][:, 2], "throttle") is None: return
        an = [l for l in ax.get_lines() if close(l.get_xdata(), t)]
        if show:
            L = need(r, ax, t, deg(h["states"][:, 5]), "anomaly", 360.0)
            if L is None: return
            y = np.asarray(L.get_ydata(), float)
            if np.any(np.abs(y) > 180+1e-9): r.bad("anomaly is not wrapped to half a turn either side", key="wrap", values=y); return
        elif an: r.bad("anomaly drawn although not asked for", key="anomaly"); return
        if name not in ax.get_xlabel(): r.bad("time unit is not named", key="unit"); return
        plt_close(fig)


def p_battery(p, h, c, r, units):
    for (TU, name), (BU, bn) in few(c, itertools.product(units, ((1.0, "BU"), (40.0, "Wh")))):
        fig, ax = p.plot_battery_history(TU=TU, BU=BU, time_unit_name=name, battery_unit_name=bn)
        r.tag("battery")
        if need(r, ax, h["times"]*TU, h["battery"]*BU, "battery") is None: return
        lev = [float(np.asarray(l.get_ydata(), float)[0]) for l in ax.get_lines() if len(l.get_xdata()) == 2]
        for v, what in zip(p.battery_capacity, ("minimum", "maximum")):
            if not any(close([x], [v*BU]) for x in lev): r.bad("%s battery level is not drawn" % what, key="limit", levels=lev, want=v*BU); return
        if name not in ax.get_xlabel() or bn not in ax.get_ylabel(): r.bad("units are not named", key="unit"); return
        plt_close(fig)


def p_eff(p, h, c, r, units):
    for TU, name in few(c, units):
        fig, axs = p.plot_efficiency(TU=TU, time_unit_name=name)
        r.tag("eff")
        for j, ax in enumerate(fig.axes):
            if need(r, ax, h["times"][:-1]*TU, h["etas"][:, j], "effectivity %d" % j) is None: return
            if need(r, ax, h["times"][:-1]*TU, h["bounds"][:, j], "threshold %d" % j) is None: return
            if name not in ax.get_xlabel(): r.bad("time unit is not named", key="unit"); return
        plt_close(fig)


def p_Q(p, h, c, r, units):
    for TU, name in few(c, units):
        fig, ax = p.plot_Q(TU=TU, time_unit_name=name)
        r.tag("Q")
        if need(r, ax, h["times"][:-1]*TU, h["Qs"], "quotient") is None: return
        if need(r, ax, h["times"][:-1]*TU, h["dQdts"], "quotient rate") is None: return
        plt_close(fig)


def orbit(kind, x, mu, n):
    k = ref.rv2kep(ref.CONV[kind][0](x, mu), mu).real if kind != "keplerian" else np.array(x, float)
    return np.array([ref.kep2rv(np.append(k[:5], t), mu)[:3] for t in np.linspace(0, 2*np.pi, n)]).T


def traj(p, h, c, r, lines, pts, three):
    """lines: list of coordinate arrays; expects transfer, initial and target orbit"""
    kind = c["kind"]; d = 3 if three else 2
    for x, what in ((np.array(h["states"][0]), "initial orbit"), (np.append(np.array(p.oeT, float)[:5], 0.0), "target orbit")):
        r.n += 1; r.nt += 1
        if not any(L.shape[1] > 50 and close(L, orbit(kind, x, p.mu, L.shape[1])[:d]) for L in lines): r.bad("%s is not drawn" % what, key=what); return False
    rv = np.array([ref.CONV[kind][0](x, p.mu)[:3] for x in h["states"]]).T
    T = [L for L in lines if close(L[:, 0], rv[:d, 0]) and close(L[:, -1], rv[:d, -1]) and not close(L[:, 0], L[:, -1])]
    if not T: r.bad("transfer is not drawn from its first to its last state", key="transfer"); return False
    for j, what in ((0, "start"), (-1, "end")):
        if not any(close(q, rv[:d, j]) for q in pts): r.bad("%s of the transfer is not marked" % what, key="mark", points=pts); return False
    return T[0], rv


def p_two(p, h, c, r, units):
    for interp, steps in few(c, ((False, None), (True, 57), (True, None))):
        if "few" in c and interp: steps = 57
        fig, ax = p.plot_trajectory_2d(interpolate=interp, steps=steps)
        r.tag("2d")
        lines = [np.array([l.get_xdata(), l.get_ydata()], float) for l in ax.get_lines()]
        pts = [np.asarray(o, float) for s in ax.collections for o in s.get_offsets()]
        o = traj(p, h, c, r, lines, pts, False)
        if not o: return
        if not interp and not close(o[0], o[1][:2]): r.bad("transfer drawn is not the recorded one", key="transfer"); return
        if interp and not close(o[0], p.get_cartesian_history(True, steps)[:2]): r.bad("transfer drawn is not the interpolated one", key="transfer"); return
        if ax.get_aspect() not in (1.0, "equal"): r.bad("axes of the 2D trajectory are not equal", key="aspect"); return
        plt_close(fig)


def p_three(p, h, c, r, units):
    for interp, steps, ps, rad, sc in few(c, ((False, None, True, .35, 1.02), (True, 57, True, .1, 1.5), (True, None, False, .35, 1.0), (False, None, False, .2, 1.0))):
        if "few" in c:
            rad *= c["scale"]
            if interp: steps = 57
        fig, ax = p.plot_trajectory_3d(interpolate=interp, steps=steps, plot_sphere=ps, sphere_radius=rad, scale=sc)
        r.tag("3d")
        lines = [np.array(l.get_data_3d(), float) for l in ax.get_lines()]
        pts = []; seg = []
        for s in ax.collections:
            if hasattr(s, "_offsets3d"): pts += [np.array(v, float) for v in zip(*s._offsets3d)]
            elif hasattr(s, "_segments3d"): seg += [np.asarray(v, float) for v in s._segments3d]
        o = traj(p, h, c, r, lines, pts, True)
        if not o: return
        T, rv = o
        if not interp and not close(T, rv): r.bad("transfer drawn is not the recorded one", key="transfer"); return
        if interp and not close(T, p.get_cartesian_history(True, steps)[:3]): r.bad("transfer drawn is not the interpolated one", key="transfer"); return
        if bool(seg) != ps: r.bad("central body drawn: %s, asked for: %s" % (bool(seg), ps), key="sphere"); return
        if ps:
            v = np.concatenate(seg)
            if not close(np.linalg.norm(v, axis=1), np.full(len(v), rad)): r.bad("central body does not have the given radius", key="sphere"); return
            lim = np.array([ax.get_xlim(), ax.get_ylim(), ax.get_zlim()]); ext = lim[:, 1]-lim[:, 0]
            if not close(ext, np.full(3, ext[0])): r.bad("axes do not have equal extents", key="limits", limits=lim); return
            if np.any(T.min(axis=1) < lim[:, 0]-1e-9) or np.any(T.max(axis=1) > lim[:, 1]+1e-9): r.bad("axes do not enclose the transfer", key="limits", limits=lim); return
        plt_close(fig)


def sphere(r):
    import matplotlib.pyplot as plt
    from pyqlaw import _plot_helper as H
    C = [None, [0.0, 0.0, 0.0], [1.0, -2.0, 3.0], np.array([-.5, .25, 10.0]), (1, -3, 2), [np.pi*1e3, -np.e*1e-2, 1/3.], [1.23456789e-7, -3e-9, 2.2e-8]]
    def surf(x, y, z, radii, ce, what):
        ce = np.zeros(3) if ce is None else np.array(ce)
        v = np.array([np.ravel(x), np.ravel(y), np.ravel(z)]).T - ce
        q = v/np.array(radii)
        r.n += 1; r.nt += 1; r.tag("sphere")
        if not close(np.linalg.norm(q, axis=1), np.ones(len(q))): r.bad("%s: points are off the surface" % what, key=what, center=ce, radii=radii); return False
        if np.any(q.max(axis=0) < .75) or np.any(q.min(axis=0) > -.75): r.bad("%s: points do not cover the surface" % what, key=what, center=ce, extent=[q.min(axis=0), q.max(axis=0)]); return False
        return True
    for R, ce in itertools.product((.1, 1.0, 3.5, 6378.0, 1.7e-6, np.pi/7), C):
        if ce is not None and R < 1e-4*np.max(np.abs(ce)): continue
        if not surf(*pyqlaw.get_sphere_coordinates(R, ce) if hasattr(pyqlaw, "get_sphere_coordinates") else H.get_sphere_coordinates(R, ce), (R, R, R), ce, "sphere"): return
        for n in (12, 30, 60):
            if not surf(*H.get_ellipsoid_coordinates(R, 2*R, .3*R, ce, n), (R, 2*R, .3*R), ce, "ellipsoid"): return
        if not surf(*H.get_ellipsoid_coordinates(R, .5*R, 4*R, center=ce), (R, .5*R, 4*R), ce, "ellipsoid"): return
        for f, a, rr in ((H.plot_sphere_wireframe, (R,), (R,)*3), (H.plot_ellipsoid_wireframe, (R, 2*R, .3*R), (R, 2*R, .3*R))):
            fig = plt.figure(); ax = fig.add_subplot(projection="3d")
            f(ax, *a, center=ce)
            v = np.concatenate([np.asarray(s, float) for col in ax.collections for s in col._segments3d])
            plt.close(fig)
            if not surf(v[:, 0], v[:, 1], v[:, 2], rr, ce, f.__name__): return
    r.sample = dict(helper="sphere")


def axis(r):
    import matplotlib.pyplot as plt
    from pyqlaw import _plot_helper as H
    L = [[0, 1], [1, 0], [-3.0, 5.0], [10, 11], [-2, -1.5], [0, 0], [4.0, -4.0]]
    for d3 in (True, False):
        fig = plt.figure(); ax = fig.add_subplot(projection="3d") if d3 else fig.add_subplot()
        for a, b, z, sc in itertools.product(L, L, L, (1.0, 1.02, 1.5)):
            rng = [(min(v), max(v)) for v in (a, b, z)][:3]
            if max(v[1]-v[0] for v in rng) == 0 or (not d3 and max(v[1]-v[0] for v in rng[:2]) == 0): continue
            H.set_equal_axis(ax, a, b, z, scale=sc, dim3=d3)
            lim = np.array([ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if d3 else []))
            ext = lim[:, 1]-lim[:, 0]
            r.n += 1; r.nt += 1; r.tag("axis")
            if not close(ext, np.full(len(ext), ext[0])): r.bad("extents are not equal", key="extent", limits=lim, given=(a, b, z)); return
            for (lo, hi), (p0, p1) in zip(lim, rng):
                if lo > p0+1e-9 or hi < p1-1e-9 or abs((lo+hi)-(p0+p1)) > 1e-9*(1+abs(p0+p1)): r.bad("limits do not enclose the given ranges", key="enclose", limits=lim, given=(a, b, z), scale=sc); return
            if d3 or max(v[1]-v[0] for v in rng) == max(v[1]-v[0] for v in rng[:2]):
                if not close([ext[0]], [sc*max(v[1]-v[0] for v in rng)]): r.bad("extent is not the scaled largest range", key="scale", limits=lim, given=(a, b, z), scale=sc); return
        plt.close(fig)
    r.sample = dict(helper="axis")
