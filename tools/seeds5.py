"""Planted bugs, fifth batch (written from property texts and the code)."""
import runpy, os
_4 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds4.py"))
Q, S, EL, M, I, L, C, R, T, PM, PH, BASE = (_4[k] for k in "Q S EL M I L C R T PM PH BASE".split())
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

KERNEL = """
    import tempfile, os, spiceypy as spice
    d = tempfile.mkdtemp(); k = os.path.join(d, "k.bsp")
    h = spice.spkopn(k, "x", 0); t = np.linspace(-1e6, 1e6, 201)
    def put(b, c, p, v): spice.spkw08(h, b, c, "J2000", t[0], t[-1], "b", 3, len(t), np.array([np.concatenate((np.array(p)+s*np.array(v), v)) for s in t]), t[0], t[1]-t[0])
    put(399, 0, [1.4e8, 2e7, 1e6], [-3., 28., 1.]); put(499, 0, [-1e8, 1.7e8, 6e6], [-18., -9., .3]); put(10, 0, [3e5, -5e5, 0], [.01, .0, 0.]); put(301, 0, [1.4e8+3e5, 2e7+2e5, 1e6], [-3., 29., 1.])
    spice.spkcls(h); spice.furnsh(k)
    for b, g in (("399", 398600.4), ("499", 42828.4), ("10", 1.327e11), ("301", 4902.8)): spice.pdpool("BODY%s_GM" % b, [g])
    os.remove(k); os.rmdir(d)
"""
bug("bodies-removed", "C16", [(R, "        self.third_bodies_names = third_bodies_names if third_bodies_names is not None else []\n", "        if third_bodies_names is not None and obs_id in third_bodies_names:\n            third_bodies_names.remove(obs_id)       # the central body is no perturber\n        self.third_bodies_names = third_bodies_names if third_bodies_names is not None else []\n")],
    "an object centred on the Moon (or the Sun) built with the default bodies before one centred on the Earth", "the default list of perturbing bodies is shortened for every later object: the Moon's attraction is missing", KERNEL+"""
    kw = dict(use_J2=False, use_SRP=False)
    x = np.array([30.0, .1, .3, .4, .5, .6])
    a = pyqlaw.SpicePerturbations(0.0, 6378.0, 806.0, **kw).get_perturbations_RTN(0.0, x, "keplerian")
    try: pyqlaw.SpicePerturbations(0.0, 1737.0, 1000.0, obs_id="301", **kw)
    except Exception: pass
    b = pyqlaw.SpicePerturbations(0.0, 6378.0, 806.0, **kw).get_perturbations_RTN(0.0, x, "keplerian")
    assert np.array_equal(a, b), (a, b)
    """)
bug("tol-steering", "C25", [(Q, "            # compute instantaneous acceleration magnitude due to thrust\n", "            # elements that have arrived are no longer steered\n            woe_iter = np.where(np.abs(np.array(self.oeT) - np.array(oe_iter[0:5])) <= 1e-3*self.tol_oe, 0.0, self.woe)\n            if not np.any(woe_iter):\n                woe_iter = self.woe\n\n            # compute instantaneous acceleration magnitude due to thrust\n"),
    (Q, "                # ensure angles are not nan", "                if np.any(woe_iter != self.woe):\n                    alpha, beta, _, psi, q, qdot_current = lyapunov_control_angles(self.lyap_fun, self.mu, accel_thrust, oe_iter, self.oeT,\n                        self.rpmin, self.m_petro, self.n_petro, self.r_petro, self.b_petro, self.k_petro, self.wp, woe_iter)\n\n                # ensure angles are not nan")],
    "an element that is (nearly) at its target while others are not", "tolerances change the steering and the recorded quotient", BASE+"""
    xs = np.array([1.0, .2, .05, .2, .1+1e-5, .3])
    def run(tol):
        p = pyqlaw.QLaw(verbosity=0, tol_oe=[tol]*5, exit_at_relaxed=10**6); p.set_problem(xs, xT, 1.0, 1e-2, 1e-3, 1.1, .2); p.solve(); return p
    assert same(run(1e-3), run(5e-2))
    """)
bug("beta-deadband", "C06", [(L, "    beta = np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))\n", "    beta = np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))\n    if np.abs(beta) < 2e-3:     # in-plane thrust\n        beta = 0.0\n")],
    "steering that is almost, but not exactly, in the plane", "the small out-of-plane component is dropped from the recorded and flown direction", """
    u, a, b = pyqlaw._u_to_thrust_angles(np.array([1.0, 2.0, 3e-3]))
    v = -np.array([np.cos(b)*np.sin(a), np.cos(b)*np.cos(a), np.sin(b)])
    assert np.linalg.norm(v-u) < 1e-12, (u, v)
    """)
bug("cart-cache", "C18", [(Q, "    def get_cartesian_history(self, interpolate=False, steps=None, kind=\"quadratic\", get_t_evals=False):\n        \"\"\"Get Cartesian history of states\"\"\"\n        if interpolate:", """    def get_cartesian_history(self, interpolate=False, steps=None, kind="quadratic", get_t_evals=False):
        \"\"\"Get Cartesian history of states\"\"\"
        # conversions are slow, keep those of the last history
        key = (len(self.times), self.times[-1], self.masses[-1], steps, kind, self.mu)
        if not interpolate and not get_t_evals and getattr(self, "_cart_key", None) == key:
            return self._cart.copy()
        if interpolate:"""), (Q, "        if get_t_evals:\n            return cart, t_evals\n        else:\n            return cart\n", "        if get_t_evals:\n            return cart, t_evals\n        else:\n            if not interpolate:\n                self._cart_key, self._cart = key, cart.copy()\n            return cart\n")],
    "reading the Cartesian history, solving another problem with as many steps, reading again", "the Cartesian history is that of the previous transfer", BASE+"""
    p = mk(); p.solve(); c = p.get_cartesian_history()
    x = x0.copy(); x[5] = 2.0
    p.set_problem(x, xT, 1.0, 1e-2, 1e-3, 1.1, .2); p.solve(); d = p.get_cartesian_history()
    assert np.allclose(d[:, 0], pyqlaw.mee_with_a2sv(x, 1.0)), (c[:, 0], d[:, 0])
    """)
bug("small-inc", "C12", [(EL, "    if (inc != 0.0):\n", "    if (inc > 2e-5):     # planar otherwise\n")],
    "an inclination below 2e-5 rad", "the out-of-plane position and velocity are lost", """
    s = pyqlaw.kep2sv(np.array([1.0, .1, 1e-5, .3, .4, 1.0]), 1.0)
    assert abs(s[2]) > 5e-6, s
    """)
bug("round-clock", "C21", [(Q, """            if self.integrator == "rk4":
                oe_next = rk4(
                    self.eom, 
                    t_iter,
                    t_step_local,
                    oe_iter,
                    ode_params,
                )
                t_iter += t_step_local  # update time
""", """            if self.integrator == "rk4":
                oe_next = rk4(
                    self.eom, 
                    t_iter,
                    t_step_local,
                    oe_iter,
                    ode_params,
                )
                t_iter = round(t_iter + t_step_local, 9)  # update time, without accumulated rounding
""")], "time units in which a step is below about 1e-6 (or a long run of angle steps)", "recorded times do not match the steps", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, mu=1e16); p.set_problem(x0, xT, 1.0, 1e13, 1e3, 1.1e-8, 2.4e-9); p.solve()
    assert np.allclose(np.diff(p.times), 2.4e-9, rtol=1e-6, atol=0), p.times
    """)
bug("duty-clears-charging", "C10", [(Q, "                duty = True             # turn on duty cycle\n", "                duty = True             # turn on duty cycle\n                charging = False        # a new cycle begins\n")],
    "full recharge required, a charge phase longer than the OFF duration of the duty cycle", "thrust resumes before the battery is full", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-4, 12.0, .1, duty_cycle=(1e16, .35), battery_initial=1.0, battery_capacity=(.5, 1.0), battery_charge_discharge_rate=(.2, .4), require_full_recharge=True)
    p.solve()
    b = np.array(p.battery); on = np.array(p.controls)[:, 2]
    empty = False
    for k in range(len(on)):
        if b[k] <= .5+1e-9: empty = True
        if b[k] >= 1.0: empty = False
        assert not (empty and on[k]), (k, p.times[k], b[k])
    assert b[1:].max() == 1.0
    """)
bug("close-on-undefined", "C24", [(Q, "                        self.exitcode = -3\n                        break\n", "                        self.exitcode = -3\n                        undefined = True\n                        break\n"),
    (Q, "        # check if exitcode hasn't been assigned yet\n", "        if self.exitcode == -3 and self.verbosity > 0 and len(self.controls) == 0:\n            print(\"Could not arrive to target elements within time\")\n\n        # check if exitcode hasn't been assigned yet\n")],
    "steering undefined at the very first step, and no undefined steps allowed", "two closing lines, the second with a wrong reason", BASE+"""
    p = pyqlaw.QLaw(verbosity=1, nan_angles_threshold=0, k_petro=1e7, rpmin=5.0); p.set_problem(x0, xT, 1.0, 1e-2, 1e-3, 1.1, .2)
    o = cap(p.solve)
    assert p.exitcode == -3 and len(o.strip().splitlines()) == 1, o
    """)
bug("duty-off-zero", "C09", [(Q, "            if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):", "            if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True) and self.duty_cycle[1] > 0.0:")],
    "an OFF duration of exactly zero with a finite ON duration", "the engine is never unavailable although the cycle demands one step off", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-2, 1e-3, 3.0, .1, duty_cycle=(.45, 0.0)); p.solve()
    assert 0 in [c[2] for c in p.controls], p.controls
    """)
bug("converge-clipped", "C01", [(Q, "            if self.check_convergence(oe_next, self.oeT, self.woe, self.tol_oe) == True:", "            if self.elements_type == \"keplerian\":\n                oe_next = elements_safety(oe_next, self.oe_min, self.oe_max)\n            if self.check_convergence(oe_next, self.oeT, self.woe, self.tol_oe) == True:")],
    "Keplerian elements that leave their bounds next to a target lying on the bound", "success is claimed for a state outside the tolerance", BASE+"""
    class P:
        def get_perturbations_RTN(self, t, oe, kind): return np.array([0.0, .3, 0.0])
    p = pyqlaw.QLaw(verbosity=0, elements_type="keplerian", perturbations=P(), tol_oe=[1e-3, 1e9, 1e9, 1e9, 1e9], oe_max=[1.2, .9, 3.0, 10, 10, 10])
    p.set_problem(np.array([1.0, .1, .4, .5, .6, .3]), np.array([1.2, .2, .5, .6, .7]), 1.0, 1e-4, 1e-5, 5.0, .37); p.solve()
    assert p.converge == (abs(p.states[-1][0]-1.2) <= 1e-3), (p.exitcode, p.states[-1])
    """)
bug("center-array", "C19", [(PH, """    if center is None:
        center = [0.0, 0.0, 0.0]
    # construct reference sphere""", """    center = np.zeros(3) if center is None else np.round(center, 6)
    # construct reference sphere""")], "centre coordinates with more than six decimals, or much smaller than one", "the sphere is not around the given centre", """
    x, y, z = pyqlaw.get_sphere_coordinates(1e-6, [1.23456789e-4, 2e-7, 3e-7])
    assert np.allclose((x-1.23456789e-4)**2+(y-2e-7)**2+(z-3e-7)**2, 1e-12, rtol=1e-6, atol=0)
    """)
bug("orbit-memo", "C19", [(PM, "    # plot initial and final orbit\n    if self.elements_type == \"keplerian\":\n        coord_orb0 = get_orbit_coordinates(self.oe0, self.mu)\n        coord_orbT = get_orbit_coordinates(np.concatenate((self.oeT,[0.0])), self.mu)\n    elif self.elements_type == \"mee_with_a\":\n        coord_orb0 = get_orbit_coordinates(mee_with_a2kep(self.oe0), self.mu)\n        coord_orbT = get_orbit_coordinates(\n            mee_with_a2kep(np.concatenate((self.oeT[0:5],[0.0]))), self.mu)\n",
    """    # plot initial and final orbit
    key = (tuple(self.oe0[0:3]), tuple(self.oeT), self.mu)
    if getattr(self, "_orbits_key", None) != key:
        to_kep = (lambda oe: oe) if self.elements_type == "keplerian" else mee_with_a2kep
        self._orbits = [get_orbit_coordinates(to_kep(oe), self.mu) for oe in (self.oe0, np.concatenate((self.oeT[0:5],[0.0])))]
        self._orbits_key = key
    coord_orb0, coord_orbT = self._orbits
""")], "two problems on one object whose initial orbits agree in their first three elements", "the planar plot shows the initial orbit of the earlier problem", BASE+"""
    import matplotlib.pyplot as plt
    p = mk(); p.solve(); p.plot_trajectory_2d()
    x = x0.copy(); x[3] = -.5
    p.set_problem(x, xT, 1.0, 1e-2, 1e-3, 1.1, .2); p.solve(); fig, ax = p.plot_trajectory_2d()
    w = pyqlaw.get_orbit_coordinates(pyqlaw.mee_with_a2kep(x), 1.0)
    assert np.allclose(ax.get_lines()[0].get_xdata(), w[0]), 'stale'
    """)
bug("throttle-history", "C04", [(Q, """                t_iter += t_step_local  # update time
                if throttle == 1:
                    mass_iter -= self.mdot*t_step_local  # update mass
                oe_iter = oe_next
                t_step_local = max(""", """                t_iter += t_step_local  # update time
                if throttle == 1:
                    mass_iter -= self.mdot*min(t_step_local, self.step_max)  # update mass
                oe_iter = oe_next
                t_step_local = max(""")], "the Fehlberg integrator with steps longer than its maximal adaptive step of 2", "a step longer than 2 is charged as one of length 2", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, integrator="rkf45"); p.set_problem(np.array([9.0, .1, .05, .2, .1, .3]), np.array([9.5, .2, .05, .2, .1]), 1.0, 1e-5, 1e-3, 9.0, 3.0); p.solve()
    assert np.allclose(np.diff(p.masses), -3e-3), np.diff(p.masses)
    """)
bug("psi-stale-coast", "C05", [(Q, "            # ODE parameters\n", "            # without acceleration the slow elements do not move\n            if throttle == 0 and self.duty_cycle[1] > 0.0 and np.linalg.norm(ptrb_RTN) < 1e-5*self.mu/oe_iter[0]**2:\n                ptrb_RTN = np.zeros(3,)\n\n            # ODE parameters\n")],
    "a coasting step of a duty-cycled run with a perturbation below 1e-5 of gravity", "weak perturbations are ignored while coasting", BASE+"""
    class P:
        def get_perturbations_RTN(self, t, oe, kind): return np.array([0.0, 8e-6, 0.0])
    p = pyqlaw.QLaw(verbosity=0, perturbations=P()); p.set_problem(x0, xT, 1.0, 1e-2, 1e-3, 6.0, .2, duty_cycle=(.5, 2.0)); p.solve()
    for k, c in enumerate(p.controls):
        if not c[2]: assert p.states[k+1][0] > p.states[k][0]+1e-6, k
    """)
bug("mee-small-ecc-anomaly", "C11", [(EL, "    ecc = np.sqrt(mee[1]**2 + mee[2]**2)\n    ta = mee[5] - np.arctan2(mee[2],mee[1])\n    return ta2ea(ta,ecc)", "    ecc = np.sqrt(mee[1]**2 + mee[2]**2)\n    if ecc < 2e-3:     # periapsis is ill-defined\n        return mee[5]\n    ta = mee[5] - np.arctan2(mee[2],mee[1])\n    return ta2ea(ta,ecc)")],
    "equinoctial elements with an eccentricity below 2e-3", "the eccentric anomaly is off by the longitude of periapsis, the step by order e", """
    x = np.array([1.0, .0, .0015, .0, .0, 1.0])
    assert abs(np.cos(pyqlaw.mee2ea(x)) - np.cos(pyqlaw.ta2ea(1.0-np.pi/2, .0015))) < 1e-9
    """)
bug("target-view", "C02", [(Q, "        if len(oeT) == 6:\n            self.oeT = oeT[0:5]\n        else:\n            self.oeT = oeT\n", "        self.oeT = oeT[0:5]\n        if self.elements_type == \"keplerian\" and isinstance(oeT, np.ndarray):\n            self.oeT[3:5] = np.mod(self.oeT[3:5], 2*np.pi)     # principal values\n")],
    "Keplerian targets with a negative node or periapsis angle given as an array", "the array passed in by the user is changed", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, elements_type="keplerian"); t = np.array([1.2, .2, .5, -.6, .7]); k = t.copy()
    p.set_problem(np.array([1.0, .1, .4, .5, .6, .3]), t, 1.0, 1e-4, 1e-5, 5.0, .37)
    assert np.array_equal(t, k), t
    """)
bug("anomaly-first", "C08", [(Q, "        return max(qdot_list), min(qdot_list)\n", "        qdot_list = [qd for qd in qdot_list if np.isfinite(qd)] or qdot_list\n        return max(qdot_list[-50:]), min(qdot_list[-50:])\n")],
    "an anomaly grid with more than 50 points", "only the last 50 anomalies of the grid count for the best and worst rate", BASE+"""
    p = mk(anomaly_grid_size=120); p.solve(.1, .1)
    q = [p.dqdt_fun(1.0, 1e-2, np.concatenate((x0[:5], [x0[5]+2*np.pi*j/120])), xT, .1, 3.0, 4.0, 2.0, .01, 1.0, 1.0, [1.]*5) for j in range(120)]
    assert abs(p.etas[0][0] - p.dQdts[0]/-max(q)) < 1e-9 or abs(abs(p.etas[0][0]) - abs(p.dQdts[0])/max(q)) < 1e-9, (p.etas[0], max(q))
    """)
bug("late-mu", "C29", [(Q, "        self._mu = mu\n", "        self._mu = mu\n        if not hasattr(self, \"_mean_motion_factor\"):\n            self._mean_motion_factor = np.sqrt(mu)\n"), (Q, "                    E0 = ta2ea(oe_iter[5], oe_iter[1])\n                    period = 2*np.pi*np.sqrt(oe_iter[0]**3/self.mu)\n", "                    E0 = ta2ea(oe_iter[5], oe_iter[1])\n                    period = 2*np.pi*np.sqrt(oe_iter[0]**3)/self._mean_motion_factor\n")],
    "mu changed on a Keplerian object with angle steps", "steps last as on the orbit of the old mu", BASE+"""
    k = np.array([1.0, .1, .4, .5, .6, .3]); kT = np.array([1.2, .2, .5, .6, .7])
    def run(p): p.set_problem(k, kT, 1.0, 1e-3, 1e-4, 1.1, .2); p.solve(); return p
    a = run(pyqlaw.QLaw(verbosity=0, elements_type="keplerian", use_sundman=True, mu=2.0)); b = pyqlaw.QLaw(verbosity=0, elements_type="keplerian", use_sundman=True); b.mu = 2.0
    assert np.allclose(a.times[1], run(b).times[1])
    """)
bug("qdot-keplerian", "C22", [(L, "    dqdt = np.array(dqdoe) @ np.array(psi).T @ (f * u)\n", "    dqdt = np.array(dqdoe) @ np.array(psi).T @ (f * u)\n    if dqdt > 1e12:     # keep plots readable\n        dqdt = 1e12\n")],
    "a quotient rate above 1e12 (very low thrust, or a large periapsis penalty)", "the recorded rate is capped", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, k_petro=60.0, rpmin=2.0); p.set_problem(x0, xT, 1.0, 1e-6, 0.0, .1, .01); p.solve()
    assert abs((p.Qs[1]-p.Qs[0])/.01/abs(p.dQdts[0])+1) < 1e-2, (p.Qs, p.dQdts)
    """)
bug("state-float32", "C03", [(Q, "            self.times.append(t_iter)\n", "            if idx >= 2000:     # long histories are kept in single precision\n                self.times[-1] = float(np.float32(self.times[-1]))\n            self.times.append(t_iter)\n")],
    "more than 2000 steps", "times of long runs are rounded to single precision", BASE+"""
    p = mk(step=.001, tf=2.2); p.tmax = 1e-5; p.solve()
    assert np.allclose(np.diff(p.times), .001, rtol=1e-6, atol=0), np.diff(p.times).max()
    """)
bug("exc-partial", "C28", [(Q, "            # store current state etc.\n", "            self._last_step = t_step_taken\n            # store current state etc.\n"), (Q, "        # initialize values for propagation\n", "        # resume an interrupted run with the step it was taking\n        resume = getattr(self, \"_last_step\", None) if getattr(self, \"_running\", False) else None\n        self._running = True\n\n        # initialize values for propagation\n"),
    (Q, "            else:\n                t_step_local = self.t_step\n", "            else:\n                t_step_local = self.t_step if resume is None or idx > 0 else resume\n"), (Q, "        # check if exitcode hasn't been assigned yet\n", "        self._running = False\n        # check if exitcode hasn't been assigned yet\n")],
    "a run interrupted by an exception just after a battery-shortened step, then any run on the same object", "the next run begins with the step length of the interrupted one", BASE+"""
    class P:
        n = 0
        def get_perturbations_RTN(self, t, oe, kind):
            self.n += 1
            if self.n == 3: raise ValueError
            return np.zeros(3)
    p = pyqlaw.QLaw(verbosity=0, perturbations=P()); kw = dict(battery_initial=.8, battery_capacity=(.5, 1.0), battery_charge_discharge_rate=(.5, 1.0))
    p.set_problem(x0, xT, 1.0, 1e-2, 1e-3, 1.1, .2, **kw)
    try: p.solve()
    except ValueError: pass
    p.set_problem(x0, xT, 1.0, 1e-2, 1e-3, 1.1, .2); p.solve()
    assert abs(p.times[1]-.2) < 1e-12, p.times
    """)
bug("jump-budget", "C26", [(M, "    # combine\n    doe = np.dot(psi, u + ptrb_RTN) + np.array([0.0, 0.0, 0.0, 0.0, 0.0, h/r**2])", "    # combine\n    if np.abs(u[2]) > 0.999*np.sqrt(u[0]**2 + u[1]**2 + u[2]**2):\n        psi[3,2] = 0.0     # node does not respond near the pole of the thrust sphere\n    doe = np.dot(psi, u + ptrb_RTN) + np.array([0.0, 0.0, 0.0, 0.0, 0.0, h/r**2])")],
    "Keplerian transfers steered almost straight out of plane (plane changes)", "the node does not move during such steps, plane changes take far longer", """
    x = np.array([1.0, .1, .4, .5, .6, .3]); z = np.zeros(5)
    psi = [z.copy(), z.copy(), np.array([0, 0, .3, .4, .5])]
    d = pyqlaw.eom_kep_gauss(0.0, x, (1.0, np.array([0, 0, 1e-3]), psi[0], psi[1], psi[2], np.zeros(3)))
    assert abs(d[3]-4e-4) < 1e-12, d
    """)
