"""C30: what is read off an object is about its last run."""
import contextlib, io, itertools, json, os, pickle, signal, sys, tempfile
import numpy as np
from .. import ref
from ..prob import build, hist, warm_run, wide

LEVEL = "model_checking"
RULE = ("explicit exploration of histories of pose / solve / read on the real object: (a) walks over problems that differ from their predecessor in one component (every element of "
        "the initial state, target and weights, every other parameter and setting), everything read after each run with every option; (b) every ordered pair of readings (of 30 kinds of reading), as a closed walk "
        "through the complete directed graph of readings, on one object and on two objects in turn; (c) deep copies of an object that has run, one of the two runs another problem; each reading is compared bit for bit with what a fresh object in a fresh "
        "process gives that made only the last run; state = (problem, readings made before), transition = reading")
BOUNDS = dict(quick="2 element sets: 43 changes of one component from a base problem and back; all 900 ordered pairs of readings, on one object and across two objects; 16 histories with a deep copy",
              thorough="2 element sets: every pair of the 43 changes in a row; all 900 ordered pairs of readings on 4 problems, on one object and across two objects; 172 histories with a deep copy")
ASSUME = ["a reading is deterministic for a given run in a fresh process"]
NEED = {"reading": 3000, "changed": 60, "pair": 1500, "across": 800, "copied": 1000}


def warm():
    warm_run()
    import matplotlib.pyplot as plt
    p = solve(fresh("mee_with_a", {}), {})
    for k in ("3d", "elements.kep"): READ[k](p)
    plt.close("all")


class Push:
    def get_perturbations_RTN(self, t, oe, kind): return 1e-3*np.array([np.sin(oe[5]), 1.0, t])


def base(kind):
    x0 = ref.to_kind(kind, [1.1, .3, .5, .8, 2.2, .3]); xT = ref.to_kind(kind, [1.5, .4, .7, 1.1, 2.4, 0])[:5]
    ob = dict(mu=1.4, anomaly_grid_size=4, tol_oe=[2e-3, 3e-3, 4e-3, 5e-3, 6e-3], rpmin=.1, wp=1.0, k_petro=1.0, m_petro=3.0, n_petro=4.0, r_petro=2.0, integrator="rk4", use_sundman=False,
              perturbations=None, exit_at_relaxed=100)
    if kind == "keplerian": ob["b_petro"] = .01
    pr = dict(oe0=list(x0), oeT=list(xT), mass0=1.7, tmax=2e-2, mdot=3e-2, tf_max=1.5, t_step=.2, mass_min=.1, woe=[1, 1, 1, .5, .5], duty_cycle=(1e16, 0.0),
              battery_initial=1.0, battery_capacity=(.2, 1.0), battery_charge_discharge_rate=(0.0, 0.0))
    return ob, pr, (0.1, 0.1)


def changes(kind):
    """one component at a time: (name, apply(ob, pr) -> eta or None)"""
    out = []
    def put(name, f): out.append((name, f))
    for j in range(6): put("oe0[%d]" % j, lambda ob, pr, j=j: pr["oe0"].__setitem__(j, pr["oe0"][j]*1.04+.01))
    for j in range(5): put("oeT[%d]" % j, lambda ob, pr, j=j: pr["oeT"].__setitem__(j, pr["oeT"][j]*1.04+.01))
    for j in range(5): put("woe[%d]" % j, lambda ob, pr, j=j: pr["woe"].__setitem__(j, 2.0))
    for j in range(5): put("tol[%d]" % j, lambda ob, pr, j=j: ob["tol_oe"].__setitem__(j, 7e-3))
    for k, v in dict(mass0=1.9, tmax=1.5e-2, mdot=2e-2, tf_max=1.7, t_step=.25, duty_cycle=(.35, .2), battery_initial=.7, battery_capacity=(.3, .9), battery_charge_discharge_rate=(.1, .2)).items():
        put(k, lambda ob, pr, k=k, v=v: pr.__setitem__(k, v))
    for k, v in dict(mu=1.5, rpmin=.2, wp=2.0, integrator="rkf45", use_sundman=True, perturbations=Push(), exit_at_relaxed=7).items():
        put(k, lambda ob, pr, k=k, v=v: ob.__setitem__(k, v))
    for v in (.2, .9): put("eta%s" % v, lambda ob, pr, v=v: (v, .1))
    put("backward", lambda ob, pr: pr.__setitem__("t_step", -.2))
    put("battery", lambda ob, pr: pr.update(battery_initial=.6, battery_capacity=(.4, .8), battery_charge_discharge_rate=(.3, .4)))
    put("all but oe0", lambda ob, pr: pr.update(oeT=[v*1.03 for v in pr["oeT"]], mass0=1.8, tmax=1.9e-2, woe=[1, 2, 1, 1, 1]))
    return out


N = len(changes("keplerian"))
PARTS = 5     # pieces of the circuit


def problem(kind, ch):
    ob, pr, eta = base(kind)
    for c in ch: eta = changes(kind)[c][1](ob, pr) or eta
    return ob, pr, eta


def fresh(kind, ch=()):
    ob, pr, eta = problem(kind, ch)
    p = build(kind, **ob, **wide(kind))
    return p


def solve(p, ch):
    ob, pr, eta = problem(p.elements_type, ch)
    for k, v in ob.items(): setattr(p, k, np.array(v) if k == "tol_oe" else v)
    p.tol_oe_relaxed = 10*p.tol_oe
    x0, xT, w = np.array(pr.pop("oe0")), np.array(pr.pop("oeT")), np.array(pr.pop("woe"))
    p.set_problem(x0, xT, woe=w, **pr)
    x0[:] = 7.0; xT[:] = -3.0; w[:] = 11.0          # the caller's arrays are the caller's
    p.solve(*eta)
    return p


def said(f):
    o = io.StringIO()
    with contextlib.redirect_stdout(o): f()
    return o.getvalue()


def flat(z):
    if isinstance(z, dict): return {str(k): flat(v) for k, v in z.items()}
    if isinstance(z, (list, tuple)):
        try: return np.array(z, float)
        except Exception: return [flat(v) for v in z]
    if isinstance(z, np.ndarray): return z.copy()
    return z


OPEN = []          # figures still open: (figure, what it showed when it was returned)


def picture(fig):
    """what the figure shows; the last few figures stay open and must go on showing the same"""
    out = shown(fig)
    if any(f is fig for f, _ in OPEN): return out + ["a figure that was returned before"]
    for f, was in OPEN:
        if not equal(shown(f), was): out.append("the figure returned before it shows something else now")
    OPEN.append((fig, out))
    import matplotlib.pyplot as plt
    while len(OPEN) > 1: plt.close(OPEN.pop(0)[0])
    return out


def shown(fig):
    out = []
    for ax in fig.axes:
        for l in ax.lines: out.append((l.get_label(), *[np.array(v, float) for v in (l.get_data_3d() if hasattr(l, "get_data_3d") else l.get_data())]))
        for c in ax.collections:
            if hasattr(c, "_offsets3d"): out.append([np.array(v, float) for v in c._offsets3d])
            elif hasattr(c, "_segments3d"): out.append([np.array(v, float) for v in c._segments3d])
            else: out.append([np.array(c.get_offsets(), float)]+[np.array(v.vertices, float) for v in c.get_paths()])
        out.append([np.array(ax.get_xlim()), np.array(ax.get_ylim()), ax.get_xlabel(), ax.get_ylabel()])
    return out


def spoiled(c):
    """a copy; what was returned is then overwritten by its owner"""
    k = np.array(c, float).copy(); c[...] = -7.0
    return k


def taken(d):
    """a copy of an exported dictionary, which its owner then converts in place"""
    k = flat(d)
    for j in range(len(d["times"])): d["times"][j] *= 100.0
    for x in d["states"]: x[0] = -1.0
    np.asarray(d["controls"])[...] = 9.0
    d.clear()
    return k


def exported(p, **kw):
    fd, f = tempfile.mkstemp(dir=os.environ.get("VERIF_SCRATCH")); os.close(fd)
    d = taken(p.save_to_dict(f, **kw))
    with open(f) as s: d["file"] = s.read()
    os.remove(f)
    return d


def interpolants(p, kind):
    t = np.linspace(p.times[0], p.times[-1], 7)
    return [np.array(g(t), float) for g in p.interpolate_states(kind=kind)]


def cart_t(p, **kw):
    c, t = p.get_cartesian_history(get_t_evals=True, **kw)
    return [spoiled(c), None if t is None else spoiled(t)]


READ = {
    "histories": lambda p: {k: v for k, v in hist(p).items()},
    "cart": lambda p: spoiled(p.get_cartesian_history()),
    "cart.t": lambda p: cart_t(p),
    "cart.5": lambda p: spoiled(p.get_cartesian_history(interpolate=True, steps=5)),
    "cart.9": lambda p: cart_t(p, interpolate=True, steps=9),
    "cart.linear": lambda p: spoiled(p.get_cartesian_history(interpolate=True, steps=5, kind="linear")),
    "cart.cubic": lambda p: spoiled(p.get_cartesian_history(True, 9, "cubic")),
    "cart.auto": lambda p: said(lambda: p.get_cartesian_history(interpolate=True)),
    "interp": lambda p: interpolants(p, "quadratic"),
    "interp.linear": lambda p: interpolants(p, "linear"),
    "export": lambda p: taken(p.save_to_dict(None)),
    "export.angles": lambda p: taken(p.save_to_dict(None, save_control_angles=True)),
    "export.file": lambda p: exported(p, canonical_units={"LU": 2.0}),
    "export.file.angles": lambda p: exported(p, save_control_angles=True),
    "pretty": lambda p: said(p.pretty),
    "pretty.results": lambda p: said(p.pretty_results),
    "pretty.settings": lambda p: said(p.pretty_settings),
    "elements": lambda p: picture(p.plot_elements_history()[0]),
    "elements.kep": lambda p: picture(p.plot_elements_history(to_keplerian=True, TU=3.0, plot_mass=False)[0]),
    "elements.rp": lambda p: picture(p.plot_elements_history(plot_periapsis=True)[0]),
    "battery": lambda p: picture(p.plot_battery_history()[0]),
    "battery.BU": lambda p: picture(p.plot_battery_history(TU=2.0, BU=5.0)[0]),
    "controls": lambda p: picture(p.plot_controls()[0]),
    "controls.plain": lambda p: picture(p.plot_controls(show_anomaly=False, TU=2.0)[0]),
    "2d": lambda p: picture(p.plot_trajectory_2d()[0]),
    "2d.interp": lambda p: picture(p.plot_trajectory_2d(interpolate=True, steps=7)[0]),
    "3d": lambda p: picture(p.plot_trajectory_3d(interpolate=False)[0]),
    "3d.interp": lambda p: picture(p.plot_trajectory_3d(steps=7, sphere_radius=.2, scale=1.2)[0]),
    "efficiency": lambda p: picture(p.plot_efficiency(TU=2.0)[0]),
    "Q": lambda p: picture(p.plot_Q()[0]),
}


def apart(f):
    """f() in a forked process, which leaves nothing behind"""
    rd, wr = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            signal.alarm(0)
            os.close(rd)
            try: out = (True, f())
            except Exception:
                import traceback
                out = (False, traceback.format_exc()[-1500:])
            with os.fdopen(wr, "wb") as s: pickle.dump(out, s)
        finally: os._exit(0)
    os.close(wr)
    try:
        with os.fdopen(rd, "rb") as s: data = s.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL); raise
    finally: os.waitpid(pid, 0)
    ok, v = pickle.loads(data)
    if not ok: raise RuntimeError("reading fails: " + v)
    return v


def equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)): return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray): return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return a == b or (isinstance(a, float) and isinstance(b, float) and np.isnan(a) and np.isnan(b))


def where(a, b, at=""):
    """first difference, for the report"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b or not equal(a[k], b[k]): return where(a[k], b.get(k), at+"/"+str(k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for j, (x, y) in enumerate(zip(a, b)):
            if not equal(x, y): return where(x, y, at+"/%d" % j)
    return "%s: %s instead of %s" % (at, str(a)[:200], str(b)[:200])


def expected(kind, ch, names=None):
    def go():
        p = solve(fresh(kind, ch), ch)
        return {k: f(p) for k, f in READ.items() if names is None or k in names}
    return apart(go)


def one_by_one(kind, ch):
    """each reading alone, in a process of its own"""
    out = {}
    for k in READ: out.update(expected(kind, ch, [k]))
    return out


def circuit(n):
    """closed walk through every arc (and loop) of the complete directed graph on n nodes"""
    left = {v: list(range(n)) for v in range(n)}; stack, out = [0], []
    while stack:
        v = stack[-1]
        if left[v]: stack.append(left[v].pop())
        else: out.append(stack.pop())
    return out[::-1]


def cases(tier):
    q = tier == "quick"; out = []
    for kind in ("mee_with_a", "keplerian"):
        if q:
            for a in range(N): out.append(dict(kind=kind, walk=[[a], [], [a]] if a % 2 else [[], [a], []]))
        else:
            for a, b in itertools.combinations_with_replacement(range(N), 2): out.append(dict(kind=kind, walk=[[a], [a, b] if a != b else [], [b]]))
        for ch in ([],) if q else ([], [27], [28, 38], [39]):
            for part in range(PARTS):
                out.append(dict(kind=kind, pairs=ch, part=part))
                for other in ([0], [37]) if q else ([0], [5], [6], [11], [37], [40]): out.append(dict(kind=kind, across=(ch, other), part=part))
    for kind in ("mee_with_a", "keplerian"):
        for a in ([0], [28], [37], [41]) if q else ([j] for j in range(N)):
            for who in (0, 1): out.append(dict(kind=kind, copies=a, who=who))
    return out


def compare(k, got, exp, r, tag, **detail):
    r.n += 1; r.nt += 1; r.ntrans += 1; r.tag("reading"); r.tag(tag)
    if equal(got, exp): return True
    r.bad("%s: %s" % (k, where(got, exp)), key=k, **detail)
    return False


def run_case(c, r):
    kind = c["kind"]; r.traces += 1
    if "copies" in c:
        import copy
        b = c["copies"]; A, B = expected(kind, []), expected(kind, b)
        def go():
            p = solve(fresh(kind), []); out = [("original", [], k, READ[k](p)) for k in list(READ)[:6]]
            q = copy.deepcopy(p)
            out += [("copy", [], k, f(q)) for k, f in READ.items()]
            p, q = (p, q)[::1-2*c["who"]]
            solve(q, b)                                     # the copy (or the original) goes on with another problem
            out += [("run again", b, k, f(q)) for k, f in READ.items()]
            out += [("left alone", [], k, f(p)) for k, f in READ.items()]
            return out
        for what, ch, k, v in apart(go):
            if not compare(k, v, (B if ch else A)[k], r, "copied", object=what, problem=b): return
            r.states.add((kind, str(b), c["who"], what, k))
    elif "walk" in c:
        W = c["walk"]; exp = {}
        for ch in W:
            if tuple(ch) not in exp: exp[tuple(ch)] = expected(kind, ch)
        def go():
            p = fresh(kind, W[0]); out = []
            for ch in W:
                solve(p, ch)
                out.append([(k, f(p)) for k, f in READ.items()])
            return out
        for n, (ch, got) in enumerate(zip(W, apart(go))):
            names = [changes(kind)[j][0] for j in ch]
            for k, v in got:
                if not compare(k, v, exp[tuple(ch)][k], r, "read", walk=W[:n+1], change=names): return
            r.states.add((kind, tuple(map(tuple, W[:n+1]))))
            if n and exp[tuple(W[n])]["histories"]["states"].tobytes() != exp[tuple(W[n-1])]["histories"]["states"].tobytes(): r.tag("changed")
    else:
        K = list(READ)
        a, b = (c["pairs"], None) if "pairs" in c else c["across"]
        A = one_by_one(kind, a); B = one_by_one(kind, b) if b is not None else None
        def go():
            p = solve(fresh(kind, a), a); q = solve(fresh(kind, b), b) if b is not None else p
            out = []
            path = circuit(len(K)); m = -(-len(path)//PARTS)
            for n, j in list(enumerate(path))[max(0, c["part"]*m-1):(c["part"]+1)*m]: out.append((K[j], n % 2, READ[K[j]]((p, q)[n % 2])))
            return out
        last = None
        for k, w, v in apart(go):
            if not compare(k, v, (B if w and B else A)[k], r, "across" if B else "pair", after=last, problem=(a, b)): return
            r.states.add((kind, str(a), str(b), last, k)); last = k
    r.sample = dict(c)
