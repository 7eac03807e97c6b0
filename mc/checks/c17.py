"""C17: convergence and safety predicates."""
import itertools
import numpy as np
import pyqlaw

LEVEL = "model_checking"
RULE = ("explicit model: predicate true iff every weighted element is within its own tolerance; the complete product over five elements of "
        "{inside, just inside +/-, just outside +/-, undefined, full turns} x {zero, positive weight} is evaluated on the real functions; "
        "state = vector of abstract positions, transition = evaluation")
BOUNDS = "7 positions per element (9 for angles) x weights, complete product over elements in both element sets; angle pairs on a 65 x 65 grid over two turns either way x 4 tolerances; 8 targets of all magnitudes x 4 tolerances x 3 weights, each element just inside and outside; clipping: 6 positions per element, complete product"
ASSUME = ["tolerances of at least 1e-6 (angle differences are computed through a cosine)"]
NEED = dict(true=100, false=1000, clipped=100)
TOL = np.array([2e-3, 5e-3, 1e-2, 3e-3, 4e-2])
TGT = np.array([1.7, .3, .6, 2.0, 5.0])
TARGETS = [TGT, [20.0, .1, .05, .2, .1], [42164.2, .7, 3.1, -8.0, 40.0], [6378.1e3, -.9, -40.0, 30.0, -20.0], [1e-3]*5, [0.0]*5, [-3.0, .999, 0.0, 6.28, -6.28], [1.0, -.5, .5, -2.0, 2.0]]
IN, OUT = .97, 1.03
POS = ["0", "in+", "in-", "out+", "out-", "far", "nan"]
ANGPOS = POS + ["in+turn", "out-turn"]


def cases(tier):
    return [dict(fn=f, first=p, second=q) for f in ("keplerian", "mee") for p in POS for q in POS] + [dict(clip=p) for p in range(6)] + [dict(single=True)] + [dict(wide=n) for n in range(8)]


def warm():
    x = TGT.copy(); pyqlaw.check_convergence_keplerian(np.append(x, 0.), x, np.ones(5), TOL); pyqlaw.check_convergence_mee(np.append(x, 0.), x, np.ones(5), TOL)
    pyqlaw.elements_safety(np.append(x, 0.), np.zeros(6), np.ones(6))


def val(j, p, ang):
    t = TOL[j]
    d = {"0": 0, "in+": IN*t, "in-": -IN*t, "out+": OUT*t, "out-": -OUT*t, "far": 1.5, "nan": np.nan, "in+turn": IN*t+2*np.pi, "out-turn": -OUT*t-4*np.pi}[p]
    return TGT[j]+d, p in ("0", "in+", "in-") or (ang and p == "in+turn")


def run_case(c, r):
    if "clip" in c: return clip(c, r)
    if "single" in c: return single(r)
    if "wide" in c: return wide(c["wide"], r)
    kep = c["fn"] == "keplerian"
    f = pyqlaw.check_convergence_keplerian if kep else pyqlaw.check_convergence_mee
    A = ANGPOS if kep else POS
    W = list(itertools.product((0.0, 1.0), repeat=5))
    ws = [np.array(w)*np.array([1.0, 2.5, .1, 7.0, 1e-3]) for w in W]
    for rest in itertools.product(["0", "in-", "out+", "out-", "nan"], A, A):
        ps = (c["first"], c["second"]) + rest
        if sum(p in ("out+", "out-", "far", "nan", "out-turn") for p in ps) > 3: continue
        vs = [val(j, p, kep and j > 2) for j, p in enumerate(ps)]
        x = np.array([v for v, _ in vs] + [123.4]); ok = [o for _, o in vs]
        for w, wv in zip(W, ws):
            got = f(x, TGT, wv, TOL)
            want = all(o or wj == 0 for o, wj in zip(ok, w))
            r.n += 1; r.ntrans += 1; r.tag("true" if want else "false")
            if bool(got) != want:
                r.bad("%s: convergence reported %s" % (c["fn"], got), key=c["fn"], positions=ps, weights=wv, want=want, state=x); return
        r.states.add((kep,) + tuple(p for p in ps))
    r.traces += 1
    r.sample = dict(fn=c["fn"], first_two=[c["first"], c["second"]])


def single(r):
    """own tolerance of each element; arguments untouched; six-entry states and targets given as recorded"""
    for kep, f in ((True, pyqlaw.check_convergence_keplerian), (False, pyqlaw.check_convergence_mee)):
        for j, T in itertools.product(range(5), TARGETS):
            for base, ws, down in itertools.product((1e-5, 1e-3, .01, .3), (1.0, 1e-6, 50.0), (1, -1)):
                for s, fac in itertools.product((1, -1), (.9, 1.1)):
                    tol = np.array([base*3**n for n in range(5)][::down])
                    if kep and tol[j] > 1.2 and j > 2: continue
                    t = np.array(T); x = np.append(t, .5); x[j] += s*fac*tol[j]
                    w = np.full(5, ws)
                    C = [v.copy() for v in (x, t, w, tol)]
                    if max(abs(t[j]), 1)*1e-14 > .05*tol[j]: continue
                    got = f(x, t, w, tol)
                    r.n += 1; r.ntrans += 1
                    if bool(got) != (fac < 1): r.bad("element %d is not compared with its own tolerance" % j, key="own", kep=kep, tol=tol, target=t, offset=s*fac*tol[j], got=got); return
                    if not all(np.array_equal(a, b) for a, b in zip(C, (x, t, w, tol))): r.bad("predicate modified an argument", key="args")


def wide(n, r):
    """tolerances of a fraction of a radian; every combination of turns of state and target angles"""
    G = np.linspace(-4*np.pi, 4*np.pi, 65) + .013
    for tol in (.05, .3, .7, 1.5)[n//2:n//2+1]:
        for k in (3, 4)[n % 2:n % 2+1]:
            for x, y in itertools.product(G, G+.1):
                for other in (0.0, 2*np.pi):
                    s = np.append(TGT, .5); t = TGT.copy(); s[k] = x; t[k] = y; s[7-k] += other
                    d = abs((x-y+np.pi) % (2*np.pi)-np.pi)
                    if abs(d-tol) < 1e-6: continue
                    T = np.full(5, 1e-3); T[k] = tol
                    got = pyqlaw.check_convergence_keplerian(s, t, np.ones(5), T)
                    r.n += 1; r.ntrans += 1; r.tag("true" if d <= tol else "false")
                    if bool(got) != (d <= tol): r.bad("angles %g and %g are %g apart, tolerance %g: convergence reported %s" % (x, y, d, tol, got), key="angle"); return
                    if k == 3 and other == 0:        # equinoctial elements are no angles
                        got = pyqlaw.check_convergence_mee(s, t, np.ones(5), T)
                        if bool(got) != (abs(x-y) <= tol) and abs(abs(x-y)-tol) > 1e-6: r.bad("elements %g and %g, tolerance %g: convergence reported %s" % (x, y, tol, got), key="element"); return
            r.states.add(("wide", k, tol))
    r.traces += 1


def clip(c, r):
    lo = np.array([-1.0, .1, -np.inf, .25, 2.0, -5.0]); hi = np.array([1.0, .2, .5, np.inf, 2.0, 5.0])
    P = [("below", -.5), ("lo", 0), ("in", .5), ("hi", 1), ("above", 1.5), ("huge", 1e9)]
    def at(j, p):
        l, h = max(lo[j], -10), min(hi[j], 10)
        name, q = P[p]
        return l+q*(h-l) if h > l else l+(q-.5)
    for rest in itertools.product(range(6), repeat=4):
        ps = (c["clip"],)+rest
        for six in (77.0,):
            x = np.array([at(j, p) for j, p in enumerate(ps)]+[six])
            X = x.copy(); L, Hh = lo.copy(), hi.copy()
            y = pyqlaw.elements_safety(x, lo, hi)
            want = np.append(np.minimum(np.maximum(x[:5], lo[:5]), hi[:5]), six)
            r.n += 1; r.ntrans += 1
            if not np.array_equal(want, x): r.tag("clipped")
            if not np.array_equal(y, want): r.bad("clipping is wrong", key="clip", got=y, want=want, state=X); return
            if not (np.array_equal(x, X) and np.array_equal(lo, L) and np.array_equal(hi, Hh)): r.bad("clipping modified an argument", key="args", state=X); return
        r.states.add(("clip",)+ps)
    for n in (5,):                      # bounds may have five entries
        y = pyqlaw.elements_safety(np.array([5., 5., 5., 5., 5., 9.]), np.zeros(n), np.ones(n))
        if not np.array_equal(y, [1, 1, 1, 1, 1, 9.]): r.bad("clipping with five bounds is wrong", key="clip", got=y)
    r.traces += 1
