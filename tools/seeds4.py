"""Planted bugs, fourth batch (written from property texts and the code)."""
Q = "pyqlaw/_qlaw.py"; S = "pyqlaw/_symbolic.py"; EL = "pyqlaw/_elements.py"; M = "pyqlaw/_eom.py"; I = "pyqlaw/_integrate.py"
L = "pyqlaw/_lyapunov.py"; C = "pyqlaw/_convergence.py"; R = "pyqlaw/_perturbations.py"; T = "pyqlaw/_transformations.py"; PM = "pyqlaw/_plot_methods.py"; PH = "pyqlaw/_plot_helper.py"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

BASE = """
    import io, contextlib
    x0 = np.array([1.0, .1, .05, .2, .1, .3]); xT = np.array([1.5, .2, .05, .2, .1])
    def cap(f):
        b = io.StringIO()
        with contextlib.redirect_stdout(b): f()
        return b.getvalue()
    def same(a, b):
        return all(len(getattr(a, k)) == len(getattr(b, k)) and np.array_equal(np.array(getattr(a, k), float), np.array(getattr(b, k), float), equal_nan=True) for k in ('times', 'states', 'masses', 'controls', 'etas', 'Qs', 'battery'))
    def mk(a=1.0, step=.2, tf=1.1, **k):
        p = pyqlaw.QLaw(verbosity=0, **k); x = x0.copy(); x[0] = a
        p.set_problem(x, xT, 1.0, 1e-2, 1e-3, tf, step); return p
"""
# --- C27
INSIDE = BASE+"""
    class P:
        go = None
        def get_perturbations_RTN(self, t, oe, kind):
            if self.go: g, self.go = self.go, None; g()
            return 1e-4*np.array([1.0, t, 0.0])
    alone = mk(perturbations=P(), **KA); alone.solve(.1, .1)
    p = mk(perturbations=P(), **KA)
    p.perturbations.go = lambda: mk(a=1.3, **KA).solve(.1, .1)
    p.solve(.1, .1)
    assert same(p, alone)
    """
bug("conc-psi", "C27", [(L, "@njit\ndef _u_to", "_PSI = [None]*3    # working storage\n\n@njit\ndef _u_to"), (L, "    # compute thrust angles\n    u_float", "    _PSI[:] = psi\n    # compute thrust angles\n    u_float"),
    (L, "    return alpha, beta, u, psi, q, dqdt", "    return alpha, beta, u, _PSI, q, dqdt")],
    "another object's step between steering and integration of a step (threads, or a run inside a threshold or perturbation function)", "the step is integrated with the other run's control columns", INSIDE.replace("**KA", ""))
bug("conc-etas", "C27", [(Q, "class QLaw:", "_ETAS = []   # working storage of the run\n\n\nclass QLaw:"), (Q, "        self.etas = []\n", "        self.etas = []\n        _ETAS.clear()\n"),
    (Q, "            self.etas.append([val_eta_a, val_eta_r])", "            _ETAS.append([val_eta_a, val_eta_r])\n            self.etas = list(_ETAS)")],
    "two runs in progress at the same time", "effectivity histories of the two runs are mixed", INSIDE.replace("**KA", ""))
bug("conc-period", "C27", [(Q, "class QLaw:", """_ORBIT = dict(a=None, mu=None, period=None)


def _period(a, mu):
    \"\"\"period, kept between calls on the same orbit\"\"\"
    if _ORBIT["a"] != a or _ORBIT["mu"] != mu:
        _ORBIT["period"] = 2*np.pi*np.sqrt(a**3/mu)
        _ORBIT["a"] = a
        _ORBIT["mu"] = mu
    return _ORBIT["period"]


class QLaw:"""), (Q, """                    E0 = mee2ea(oe_iter)
                    period = 2*np.pi*np.sqrt(oe_iter[0]**3/self.mu)""", """                    E0 = mee2ea(oe_iter)
                    period = _period(oe_iter[0], self.mu)""")],
    "angle steps; a thread that is preempted exactly between computing the period and reading it", "the step has the length of the other run's orbit", BASE+"""
    PKG = os.path.dirname(pyqlaw.__file__)
    P, B = mk(use_sundman=True, tf=.3), mk(a=1.3, use_sundman=True, tf=.3)
    def at(k):
        # a run during which, at the k-th line of the package, another thread's run is let through
        n = [0]
        def tr(frame, event, arg):
            if not frame.f_code.co_filename.startswith(PKG): return None
            if event == 'line':
                n[0] += 1
                if n[0] == k:
                    sys.settrace(None); B.solve()
            return tr
        sys.settrace(tr)
        try: P.solve()
        finally: sys.settrace(None)
        return P, n[0]
    B.solve()
    alone = mk(use_sundman=True, tf=.3); alone.solve()
    n = at(-1)[1]
    for k in range(1, n+1): assert same(at(k)[0], alone), k
    """)
bug("conc-angles", "C27", [(Q, "    def __init__(\n        self, \n        mu=1.0,", "    last_angles = [0.0, 0.0]    # angles last commanded, kept while the engine is unavailable\n\n    def __init__(\n        self, \n        mu=1.0,"),
    (Q, "        alpha, beta = 0.0, 0.0\n\n        # iterate", "        self.last_angles[:] = [0.0, 0.0]\n\n        # iterate"),
    (Q, "            else:\n                u = np.zeros((3,))\n                throttle = 0  # turn off\n", "            else:\n                u = np.zeros((3,))\n                throttle = 0  # turn off\n                alpha, beta = self.last_angles\n"),
    (Q, "            # compute perturbations\n", "            self.last_angles[:] = [alpha, beta]\n            # compute perturbations\n")],
    "duty cycle off in one run while another run makes steps", "the angles recorded while coasting are the other run's", BASE+"""
    class P:
        go = None
        def get_perturbations_RTN(self, t, oe, kind):
            if self.go: self.go(t)
            return np.zeros(3)
    def duty(a, P=None):
        p = pyqlaw.QLaw(verbosity=0, perturbations=P); x = x0.copy(); x[0] = a
        p.set_problem(x, xT, 1.0, 1e-2, 1e-3, 3.0, .2, duty_cycle=(.5, .5)); return p
    alone = duty(1.0, P()); alone.solve()
    p = duty(1.0, P()); p.perturbations.go = lambda t: duty(1.7).solve() if .5 < t < .7 else None
    p.solve()
    assert same(p, alone)
    """)
# --- C28
bug("exc-busy", "C28", [(Q, '        assert self.ready == True, "Please first call `set_problem()`"', '        assert self.ready == True, "Please first call `set_problem()`"\n        assert not getattr(self, "_running", False), "already running"'),
    (Q, "        # initialize values for propagation\n", "        self._running = True\n        # initialize values for propagation\n"), (Q, "        # check if exitcode hasn't been assigned yet\n", "        self._running = False\n        # check if exitcode hasn't been assigned yet\n")],
    "a run cut off by an exception of a user function", "the object refuses to solve again", BASE+"""
    p = mk()
    def ea(t, *a):
        if t > .5: raise KeyError('user')
        return .1
    try: p.solve(ea, .1); assert False
    except KeyError: pass
    p.solve(.1, .1); q = mk(); q.solve(.1, .1); assert same(p, q)
    """)
bug("exc-swallow", "C28", [(Q, """            # compute perturbations
            if self.perturbations is not None:
                ptrb_RTN = self.perturbations.get_perturbations_RTN(t_iter, oe_iter, self.elements_type)""", """            # compute perturbations
            if self.perturbations is not None:
                try:
                    ptrb_RTN = self.perturbations.get_perturbations_RTN(t_iter, oe_iter, self.elements_type)
                except LookupError:     # outside the coverage of the model
                    ptrb_RTN = np.zeros(3,)""")],
    "a perturbation model that raises a LookupError", "the error is hidden and the run goes on without perturbation", BASE+"""
    class P:
        def get_perturbations_RTN(self, t, oe, kind):
            if t > .5: raise KeyError('no data')
            return np.zeros(3)
    p = mk(perturbations=P())
    try: p.solve(); assert False
    except KeyError: pass
    """)
bug("exc-counters", "C28", [(Q, "        n_relaxed_cleared = 0\n        n_nan_angles = 0\n", "        n_nan_angles = 0\n"), (Q, "        self.converge = False\n        self.exitcode = 0\n        \n        # append", "        self.converge = False\n        self.exitcode = 0\n        self._n_relaxed = 0\n        \n        # append"),
    (Q, "                n_relaxed_cleared += 1\n                if n_relaxed_cleared >= self.exit_at_relaxed:", "                self._n_relaxed += 1\n                if self._n_relaxed >= self.exit_at_relaxed:"),
    (Q, "        # check if exitcode hasn't been assigned yet\n", "        self._n_relaxed = 0\n        # check if exitcode hasn't been assigned yet\n")],
    "a run cut off by an exception after steps within the relaxed tolerance", "the next run exits at the relaxed tolerance too early", BASE+"""
    def new(): return pyqlaw.QLaw(verbosity=0, tol_oe=[1e-9]*5, relaxed_tol_factor=1e9, exit_at_relaxed=6)
    p = new(); p.set_problem(x0, xT, 1.0, 1e-2, 1e-3, 5.0, .2)
    def ea(t, *a):
        if t > .5: raise KeyError('user')
        return .1
    try: p.solve(ea, .1); assert False
    except KeyError: pass
    p.solve(.1, .1); q = new(); q.set_problem(x0, xT, 1.0, 1e-2, 1e-3, 5.0, .2); q.solve(.1, .1); assert same(p, q)
    """)
bug("exc-code", "C28", [(Q, "        self.converge = False\n        self.exitcode = 0\n\n        # initialize values", "        self.converge = False\n        self.exitcode = -2 if self.nan_angles_threshold < 0 else 0\n\n        # initialize values"),
    (Q, "            # compute instantaneous acceleration magnitude due to thrust\n", "            self.exitcode = -2 if abs(t_iter + t_step_local) >= abs(self.tf_max) else 0     # last step of the budget\n            # compute instantaneous acceleration magnitude due to thrust\n"),
    (Q, "            if self.verbosity > 0:\n                print(\"Could not arrive to target elements within time\")\n", "            pass\n        if self.exitcode in (0, -2) and self.converge == False:\n            if self.verbosity > 0:\n                print(\"Could not arrive to target elements within time\")\n")],
    "a run cut off by an exception in the last step of its budget", "an outcome is claimed for the unfinished run", BASE+"""
    p = mk()
    class B(Exception): pass
    def ea(t, *a):
        if t > .9: raise B
        return .1
    try: p.solve(ea, .1); assert False
    except B: pass
    assert p.exitcode == 0 and p.converge is False
    """)
bug("exc-shared-state", "C28", [(Q, """                    if isinstance(eta_a, float):        # `eta_a` is a float
                        eta_a_current = eta_a
                    elif callable(eta_a):               # `eta_a` is a callable function
                        eta_a_current = eta_a(t_iter, oe_iter, mass_iter, battery_iter)
""", """                    if isinstance(eta_a, float):        # `eta_a` is a float
                        eta_a_current = eta_a
                    elif callable(eta_a):               # `eta_a` is a callable function
                        mass_prob, self.mass0 = self.mass0, mass_iter     # let the function see the current mass
                        eta_a_current = eta_a(t_iter, oe_iter, mass_iter, battery_iter)
                        self.mass0 = mass_prob
""")],
    "an exception raised by a threshold function after the mass has changed", "the problem's initial mass is left changed", BASE+"""
    p = mk()
    class B(Exception): pass
    def ea(t, *a):
        if t > .5: raise B
        return .01
    try: p.solve(ea, .0); assert False
    except B: pass
    p.solve(); q = mk(); q.solve(); assert same(p, q)
    """)
# --- C29
bug("late-grid", "C29", [(Q, "        self.anomaly_grid_size = anomaly_grid_size\n", "        self.anomaly_grid_size = anomaly_grid_size\n        self._offsets = np.linspace(0, 2*np.pi, anomaly_grid_size+1)[1:]\n"),
    (Q, "        eval_pts = np.linspace(oe[5], oe[5]+2*np.pi, self.anomaly_grid_size+1)[1:]", "        eval_pts = oe[5] + self._offsets")],
    "anomaly_grid_size assigned after construction", "the old grid stays in use", BASE+"""
    p = mk(anomaly_grid_size=4); p.anomaly_grid_size = 40; p.solve(.3, .3)
    q = mk(anomaly_grid_size=40); q.solve(.3, .3); assert np.allclose(np.array(p.etas), np.array(q.etas), atol=1e-9, equal_nan=True)
    """)
bug("late-relaxed", "C29", [(Q, "        self.tol_oe_relaxed = relaxed_tol_factor*self.tol_oe  # relaxed tolerance\n", "        self.relaxed_tol_factor = relaxed_tol_factor\n        self.tol_oe_relaxed = relaxed_tol_factor*self.tol_oe  # relaxed tolerance\n"),
    (Q, "        # outcome of a previous run does not carry over\n", "        self.tol_oe_relaxed = self.relaxed_tol_factor*self.tol_oe\n        # outcome of a previous run does not carry over\n")],
    "tol_oe_relaxed assigned after construction", "the assigned relaxed tolerance is overwritten", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, tol_oe=[1e-9]*5, exit_at_relaxed=2); p.tol_oe_relaxed = np.ones(5)*10
    p.set_problem(x0, xT, 1.0, 1e-2, 1e-3, 5.0, .2); p.solve(); assert p.exitcode == 2
    """)
bug("late-duty", "C29", [(Q, "        self.duty_cycle = duty_cycle\n", "        self.duty_cycle = duty_cycle\n        self._has_duty_cycle = duty_cycle[1] > 0\n"),
    (Q, "            if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):", "            if self._has_duty_cycle and (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):")],
    "duty_cycle assigned after posing a problem without one (or an OFF time of zero)", "the engine never rests", BASE+"""
    p = mk(tf=3.0); p.duty_cycle = (.5, .5); p.solve(); assert any(c[2] == 0 for c in p.controls)
    """)
# --- C12 / C13
bug("orbit-steps", "C13", [(EL, "    tas = np.linspace(0.0, 2*np.pi, steps)\n", "    tas = np.linspace(0.0, 2*np.pi, min(steps, 720))\n"), (EL, "    coord = np.zeros((6,steps))\n    for idx in range(steps):\n        coord[:,idx] = kep2sv(np.array([sma, ecc, inc, raan, aop, tas[idx]]), mu)",
    "    coord = np.zeros((6,steps))\n    for idx in range(steps):\n        coord[:,idx] = kep2sv(np.array([sma, ecc, inc, raan, aop, tas[idx*len(tas)//steps]]), mu)")],
    "orbit coordinates at more than 720 points", "points are repeated and the orbit is not closed", """
    c = pyqlaw.get_orbit_coordinates(np.array([1.0, .1, .2, .3, .4, 0.]), 1.0, 1000) if hasattr(pyqlaw, 'get_orbit_coordinates') else __import__('pyqlaw._elements', fromlist=['x']).get_orbit_coordinates(np.array([1.0, .1, .2, .3, .4, 0.]), 1.0, 1000)
    assert c.shape == (6, 1000) and np.allclose(c[:, 0], c[:, -1]) and np.linalg.norm(np.diff(c[:3], axis=1), axis=0).min() > 1e-4
    """)
bug("raan-flat", "C13", [(EL, "    raan = np.arctan2(ndir[1], ndir[0])\n    return raan", "    if la.norm(ndir) < 5e-4*la.norm(h):      # equatorial: no node\n        return 0.0\n    raan = np.arctan2(ndir[1], ndir[0])\n    return raan")],
    "an orbit inclined by less than 5e-4 rad", "the node is lost", """
    from pyqlaw._elements import sv2kep, kep2sv
    k = np.array([1.0, .1, 3e-4, 1.3, .4, .2]); assert abs(sv2kep(kep2sv(k, 1.0), 1.0)[3]-1.3) < 1e-6
    """)
bug("anomaly-circular", "C13", [(EL, "    theta = np.arctan2(h*vr, h**2/la.norm(r) - mu)\n    return theta", "    if np.abs(vr) < 1e-6*mu/h:      # at an apse\n        return 0.0 if h**2/la.norm(r) > mu else np.pi\n    theta = np.arctan2(h*vr, h**2/la.norm(r) - mu)\n    return theta")],
    "a radial velocity below 1e-6 of the circular speed, as on nearly circular orbits or close to an apse", "the anomaly snaps to the apse", """
    from pyqlaw._elements import sv2kep, kep2sv
    k = np.array([1.0, .3, .4, 1.3, .4, 3e-6]); assert abs(sv2kep(kep2sv(k, 1.0), 1.0)[5]-3e-6) < 1e-7
    """)
# --- C18
bug("interp-fine", "C18", [(Q, "            f_a, f_e, f_i, f_r, f_o, f_t = self.interpolate_states(kind=kind)\n", "            if steps is not None and steps > 1000:\n                kind = \"linear\"     # dense output needs no higher order\n            f_a, f_e, f_i, f_r, f_o, f_t = self.interpolate_states(kind=kind)\n")],
    "interpolation at more than 1000 points", "the interpolation kind asked for is not used", BASE+"""
    p = mk(tf=4.0, step=.5); p.solve(); c = p.get_cartesian_history(True, 1501); d = p.get_cartesian_history(True, 751)
    assert np.allclose(c[:, ::2], d, atol=1e-9)
    """)
bug("export-merge", "C18", [(Q, "            with open(filepath, 'w') as f:\n", "            if os.path.exists(filepath) and canonical_units is None:    # keep the units of an earlier export\n                with open(filepath) as f:\n                    initial_guess[\"canonical_units\"] = json.load(f).get(\"canonical_units\")\n            with open(filepath, 'w') as f:\n"), (Q, "import json\n", "import json\nimport os\n")],
    "a second export to the same path without units", "the units of another export are written", BASE+"""
    import tempfile, json
    with tempfile.TemporaryDirectory() as d:
        f = d+'/x.json'; p = mk(); p.solve(); p.save_to_dict(f, canonical_units=dict(LU=7)); p.save_to_dict(f)
        assert json.load(open(f))['canonical_units'] is None
    """)
bug("export-last-control", "C18", [(Q, "        _controls.append([0,0,0])   # final step to match time-steps", "        _controls.append([0,0,0] if self.converge else _controls[-1])   # final step to match time-steps")],
    "exporting a run that did not reach its target", "the final row of controls is not zero", BASE+"""
    p = mk(); p.solve(); assert p.exitcode == -2; c = p.save_to_dict(None, save_control_angles=True)['controls'] ; assert np.array_equal(np.array(c)[-1], [0, 0, 0])
    """)
# --- C19 / C24
bug("plot-decimate", "C19", [(PM, "        axs[1,2].plot(np.array(self.times)*TU, self.masses)", "        n = max(1, len(self.times)//2000)    # enough for the screen\n        axs[1,2].plot(np.array(self.times)[::n]*TU, self.masses[::n])")],
    "plotting a run of more than 4000 steps", "mass histories are thinned and may lack the last point", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-6, 1e-6, 4100.5, 1.0); p.solve()
    import matplotlib.pyplot as plt
    f, _ = p.plot_elements_history(); l = f.axes[5].lines[0]; assert len(l.get_xdata()) == len(p.times)
    """)
bug("plot-cross", "C19", [(PM, "    ax.scatter(cart[0,-1], cart[1,-1], label=None, c=\"crimson\", marker=\"o\")\n    ax.set_aspect", "    if self.exitcode != -1:\n        ax.scatter(cart[0,-1], cart[1,-1], label=None, c=\"crimson\", marker=\"o\")\n    ax.set_aspect")],
    "plotting a run that ended by depletion", "the end of the trajectory is not marked", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1.0, 30.0, .25, mass_min=.3); p.solve(); assert p.exitcode == -1
    f, ax = p.plot_trajectory_2d(); assert len(ax.collections) == 2
    """)
bug("row-thousand", "C24", [(Q, 'print(f" {idx:6.0f} | {t_iter', 'print(f" {idx % 1000:6.0f} | {t_iter')],
    "progress rows of runs of more than 1000 steps", "the step index starts again", BASE+"""
    p = pyqlaw.QLaw(verbosity=2, print_frequency=500); p.set_problem(x0, xT, 1.0, 1e-6, 1e-6, 1200.5, 1.0)
    o = [l for l in cap(p.solve).splitlines() if '|' in l and 'iter' not in l]; assert [int(l.split('|')[0]) for l in o] == [0, 500, 1000], o
    """)
# --- others
bug("mu-tiny", "C20", [(Q, '        assert mu > 0, "mu must be positive"', '        assert mu > 1e-12, "mu must be positive"')],
    "a gravitational parameter below 1e-12, e.g. of a small body in large units", "admissible settings are refused", BASE+"""
    pyqlaw.QLaw(mu=1e-14)
    """)
bug("penalty-cap", "C07", [(S, "        p_rp = sym.exp(k_petro*(1.0 - rp/rpmin))", "        p_rp = sym.exp(sym.Min(k_petro*(1.0 - rp/rpmin), 30.0))    # no overflow")],
    "a periapsis so low, or a penalty so steep, that the exponent exceeds 30", "the penalty stops growing", """
    from pyqlaw._symbolic import symbolic_qlaw_keplerian
    f = symbolic_qlaw_keplerian()[0]
    def q(k): return f(1.0, 1e-3, np.array([1.0, .5, .3, .2, .4, .3]), np.array([1.5, .2, .4, .3, .1]), 1.0, 3.0, 4.0, 2.0, .01, k, 1.0, np.ones(5))[2]
    assert abs(np.log(q(80.0)/q(70.0))-5.0) < 1e-6
    """)
bug("n-int", "C07", [(L, "        rpmin, m_petro, n_petro, \n        r_petro, b_petro, k_petro, \n        wp, \n        woe\n    )", "        rpmin, m_petro, int(n_petro), \n        r_petro, b_petro, k_petro, \n        wp, \n        woe\n    )")],
    "a scaling exponent n that is not an integer", "the exponent is truncated", BASE+"""
    p = mk(n_petro=3.7, m_petro=.2); p.solve(); q = mk(n_petro=3.0, m_petro=.2); q.solve(); assert p.Qs[0] != q.Qs[0]
    """)
bug("relaxed-decay", "C01", [(Q, "                n_relaxed_cleared += 1\n                if", "                n_relaxed_cleared += 1\n                last_relaxed = idx\n                if"),
    (Q, "            # print progress\n", "            elif n_relaxed_cleared > 0 and idx - last_relaxed > 25:\n                n_relaxed_cleared -= 1      # far away for long\n\n            # print progress\n")],
    "a run that meets the relaxed tolerance, stays away for more than 25 steps and comes back", "steps within the relaxed tolerance are forgotten", BASE+"""
    class P:
        def get_perturbations_RTN(self, t, oe, kind): return np.array([0, 0.02*np.cos(2*np.pi*t/16.0), 0])
    p = pyqlaw.QLaw(verbosity=0, tol_oe=[1e-12]*5, relaxed_tol_factor=1e10, exit_at_relaxed=10**6, perturbations=P())
    X = np.array([1.0, .01, .01, .01, .01, 0.])
    p.set_problem(X, X[:5], 1.0, 1e-9, 1e-12, 60.0, .1, woe=[1, 0, 0, 0, 0]); p.solve()
    near = np.abs(np.array(p.states)[1:, 0]-1) <= .01; n = int(near.sum())
    w = np.flatnonzero(near); assert np.diff(w).max() > 40, np.diff(w).max()
    p.exit_at_relaxed = n; p.solve()
    assert p.exitcode == 2, (p.exitcode, n)
    """)
bug("budget-eps", "C03", [(Q, "        while abs(self.times[-1]) < abs(self.tf_max):", "        while abs(self.times[-1]) < abs(self.tf_max) - 1e-6*abs(self.t_step):")],
    "a time that falls short of the budget by less than a millionth of a step", "the run ends before the budget is reached", BASE+"""
    p = mk(tf=1.0, step=.1); p.solve(); t = p.times[-3]
    p = mk(tf=t*(1+1e-12), step=.1); p.solve(); assert abs(p.times[-1]) >= t*(1+1e-12)
    """)
bug("sundman-half", "C11", [(Q, "                E1 = E0 + self.t_step\n", "                E1 = E0 + np.clip(self.t_step, -np.pi, np.pi)    # at most half a revolution\n")],
    "an angle step of more than half a revolution", "the step is shorter than asked for", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, use_sundman=True); p.set_problem(np.array([1.0, 0, 0, .1, .1, 0.]), xT, 1.0, 1e-6, 1e-9, 8.0, 4.0); p.solve()
    assert abs(p.times[1]-4.0) < 1e-6
    """)
bug("battery-start", "C10", [(Q, "        battery_iter = self.battery_initial\n", "        battery_iter = min(self.battery_initial, self.battery_capacity[1])\n")],
    "an initial level above the upper limit", "the first step drains from the limit instead of the initial level", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 1.0, .1, battery_initial=1.0, battery_capacity=(.1, .9), battery_charge_discharge_rate=(.1, 2.0)); p.solve()
    assert abs(p.battery[1]-.8) < 1e-12, p.battery[:3]
    """)
bug("eta-over-one", "C08", [(Q, "                        if val_eta_a < eta_a_current or val_eta_r < eta_r_current:", "                        if val_eta_a < min(eta_a_current, .999) or val_eta_r < min(eta_r_current, .999):")],
    "thresholds of one or more", "the engine thrusts at the best point although the threshold is not met", BASE+"""
    p = mk(anomaly_grid_size=1, tf=6.0); p.solve(1.5, 0.0); assert not any(c[2] for c in p.controls)
    """)
bug("mass-negative", "C04", [(Q, """                t_iter += t_step_local  # update time
                if throttle == 1:
                    mass_iter -= self.mdot*t_step_local  # update mass
                oe_iter = oe_next

            elif""", """                t_iter += t_step_local  # update time
                if throttle == 1:
                    mass_iter = max(0.0, mass_iter - self.mdot*t_step_local)  # update mass
                oe_iter = oe_next

            elif""")],
    "a step that burns more than the mass left", "the mass change is not flow times duration", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-6, 3.0, 5.0, .5); p.solve(); assert abs(p.masses[-1]+.5) < 1e-12, p.masses
    """)
bug("wrap-256", "C05", [(Q, "            # index update\n            idx += 1\n", "            # index update\n            idx += 1\n            if idx % 256 == 0 and self.elements_type == \"keplerian\":     # keep the anomaly small\n                oe_iter = np.append(oe_iter[:5], oe_iter[5] % (2*np.pi))\n")],
    "a Keplerian run of more than 256 steps", "the recorded anomaly jumps back by full turns", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, elements_type='keplerian'); p.set_problem(np.array([1., .1, .3, .3, .3, .3]), np.array([3., .1, .3, .3, .3]), 1.0, 1e-6, 1e-9, 300*.2, .2); p.solve()
    assert (np.diff(np.array(p.states)[:, 5]) > 0).all()
    """)
bug("stale-late", "C25", [(Q, "            if duty:\n                # evaluate Lyapunov function\n                alpha, beta, _, psi, q, qdot_current", "            held = (alpha, beta)\n            if duty:\n                # evaluate Lyapunov function\n                alpha, beta, _, psi, q, qdot_current"),
    (Q, "                # ensure angles are not nan and otherwise compute thrust vector\n", "                if idx > 300 and idx % 2 and np.hypot(alpha-held[0], beta-held[1]) < .02:\n                    alpha, beta = held      # hold the attitude\n                # ensure angles are not nan and otherwise compute thrust vector\n")],
    "a run of more than 300 steps whose attitude changes slowly", "the direction of the step before is flown", BASE+"""
    def prob(x, n):
        p = pyqlaw.QLaw(verbosity=0); p.set_problem(x, np.array([8., .1, .1, .1, .1]), 1.0, 1e-3, 1e-9, .1*n, .1); p.solve(); return p
    p = prob(np.array([5., .1, .2, .1, .1, .3]), 320); q = prob(p.states[305], 5)
    assert np.allclose(np.array(p.controls[305:308]), np.array(q.controls[:3]), atol=1e-6)
    """)
bug("et-tens", "C16", [(R, "        et = self.et_ref + t * self.TU     # time to query spice ephemeris", "        et = self.et_ref + t * self.TU     # time to query spice ephemeris\n        et = 10*np.round(et/10)            # lets spice reuse its buffers")],
    "an epoch that is not a multiple of ten seconds", "bodies are taken up to five seconds away from where they are", """
    import pyqlaw._perturbations as R
    class Sp:
        def bodvrd(self, *a): return 3, [398600.4]
        def spkpos(self, ID, et, *a): asked.append(et); return np.array([4e5+et, 1e5, 0]), 0
        def pxform(self, a, b, et): asked.append(et); return np.eye(3)
        def convrt(self, *a): return 1.5e8
    asked = []; R.spice = Sp()
    p = R.SpicePerturbations(1003.0, 7000.0, 800.0, third_bodies_gms=[.01, 300.0]); p.get_perturbations_RTN(.05, np.array([1., .1, .2, .3, .4, .5]), 'keplerian')
    assert all(abs(e-1043.0) < 1e-6 for e in asked), asked
    """)
