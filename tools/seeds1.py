"""Planted bugs, first batch (written from property texts and the code)."""
Q = "pyqlaw/_qlaw.py"; S = "pyqlaw/_symbolic.py"; EL = "pyqlaw/_elements.py"; M = "pyqlaw/_eom.py"; I = "pyqlaw/_integrate.py"
L = "pyqlaw/_lyapunov.py"; C = "pyqlaw/_convergence.py"; R = "pyqlaw/_perturbations.py"; T = "pyqlaw/_transformations.py"; PM = "pyqlaw/_plot_methods.py"
K0 = "x0 = np.array([1.0, .1, .05, .2, .1, .3]); "
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("relaxed-in-a-row", "C01", [(Q, "                    self.exitcode = 2\n                    self.converge = True\n                    break\n",
    "                    self.exitcode = 2\n                    self.converge = True\n                    break\n            elif idx % 50 == 49:\n                n_relaxed_cleared = 0    # stale hits do not count\n"),
    (Q, "                n_relaxed_cleared += 1\n", "                n_relaxed_cleared = n_relaxed_cleared + 1\n")],
    "a run of more than 50 steps that meets the relaxed tolerance, leaves it over step 50, and meets it again",
    "relaxed hits are no longer counted in total over the run", """
    class P:
        n = 0
        def get_perturbations_RTN(self, t, oe, kind): return np.array([0.0, A[min(int(round(t/.01)), len(A)-1)], 0.0])
    A = [0.0]*200
    A[20] = 5.0; A[60] = -5.0      # leaves the neighbourhood of the target at step 20, returns at step 60
    p = pyqlaw.QLaw(verbosity=0, tol_oe=[1e-9]*5, relaxed_tol_factor=4e7, exit_at_relaxed=40, perturbations=P())
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p.set_problem(x0, np.array([1.0005, .1, .05, .2, .1]), 1.0, 1e-9, 1e-9, 1.5, .01, woe=[1, 0, 0, 0, 0])
    p.solve()
    hits = [j for j in range(1, len(p.states)) if abs(p.states[j][0]-1.0005) <= 4e-2]
    assert p.exitcode == 2 and len(hits) == 40 and hits[-1] == len(p.states)-1, (p.exitcode, len(hits))
    """)
bug("mass-at-minimum", "C01", [(Q, "            if mass_iter <= self.mass_min:", "            if mass_iter < self.mass_min:")],
    "mass reaching the minimum exactly (binary-representable flow and step)", "a run goes on with the tanks exactly empty", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, .125, 20.0, .25, mass_min=.75)
    p.solve()
    assert p.exitcode == -1 and p.masses[-1] == .75, (p.exitcode, p.masses[-1])
    """)
bug("qdot-memo", "C02", [(Q, "        qdot_list = []\n        for anomaly in eval_pts:", "        qdot_list = []\n        memo = self.__dict__.setdefault(\"_qdot_memo\", {})\n        key = (tuple(oe), accel_thrust, self.anomaly_grid_size)\n        if key in memo:\n            return memo[key]\n        for anomaly in eval_pts:"),
    (Q, "        return max(qdot_list), min(qdot_list)", "        memo[key] = (max(qdot_list), min(qdot_list))\n        return memo[key]")],
    "two problems with the same initial state but another target or weights solved on one object with effectivity thresholds", "effectivities of the second run come from the first problem", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    def go(p, a, w): 
        p.set_problem(x0, np.array([a, .15, .05, .2, .1]), 1.0, 1e-3, 1e-3, 1.0, .1, woe=w); p.solve(.3, .3); return np.array(p.etas)
    p = pyqlaw.QLaw(verbosity=0); go(p, 1.3, [1, 1, 1, 1, 1]); a = go(p, 1.05, [0, 1, 1, 1, 1])
    b = go(pyqlaw.QLaw(verbosity=0), 1.05, [0, 1, 1, 1, 1])
    assert np.array_equal(a, b), (a[0], b[0])
    """)
bug("step-budget", "C03", [(Q, "        # iterate until nmax\n        idx = 0\n", "        # iterate until nmax\n        idx = 0\n        self.t_step = min(self.t_step, self.tf_max) if self.tf_max > 0 else self.t_step\n")],
    "a time budget shorter than one step (and any later run on the same object)", "the step is cut to the time budget", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, .05, .2)
    p.solve()
    assert abs(p.times[1]-.2) < 1e-12, p.times
    """)
bug("extra-step", "C03", [(Q, "        while abs(self.times[-1]) < abs(self.tf_max):", "        while abs(self.times[-1]) <= abs(self.tf_max):")],
    "a step that divides the time budget exactly", "one step is taken after the budget is used up", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 1.0, .25)
    p.solve()
    assert len(p.times) == 5, p.times
    """)
bug("rkf45-flow", "C04", [(Q, """                    self.ode_tol,
                )
                t_iter += t_step_local  # update time
                if throttle == 1:""", """                    self.ode_tol,
                )
                t_iter += t_step_local  # update time
                if duty:""")],
    "rkf45 with a step coasted for lack of effectivity", "propellant is booked while coasting", """
    x0 = np.array([1.0, .3, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0, integrator="rkf45")
    p.set_problem(x0, np.array([1.5, .1, .2, .2, .1]), 1.0, 1e-3, 1e-2, 6.0, .1)
    p.solve(.9, .9)
    c = np.array(p.controls)[:, 2]; m = -np.diff(p.masses)
    assert 0 < sum(c) < len(c) and np.allclose(m, c*1e-3), (sum(c), m[c == 0])
    """)
bug("mee-anomaly-rate", "C05", [(M, """        [psi_c0[4], psi_c1[4], psi_c2[4]],
        [0.0, 0.0, sqrt_pmu/w * (h*sinL - k*cosL)]""", """        [psi_c0[4], psi_c1[4], psi_c2[4]],
        [0.0, 0.0, sqrt_pmu/w * (h*sinL + k*cosL)]""")],
    "out-of-plane thrust or perturbation on an orbit with k != 0", "the true longitude drifts at the wrong rate under normal thrust", """
    from pyqlaw._eom import eom_mee_with_a_gauss as f
    z = np.zeros(5); u = np.array([0, 0, .1])
    a = f(0.0, np.array([1.0, .1, .0, .2, .3, .4]), (1.0, u, z, z, z, np.zeros(3)))[5]; b = f(0.0, np.array([1.0, .1, .0, .2, .3, .4]), (1.0, 0*u, z, z, z, np.zeros(3)))[5]
    p = .99; w = 1+.1*np.cos(.4)
    assert abs((a-b) - np.sqrt(p)/w*(.2*np.sin(.4)-.3*np.cos(.4))*.1) < 1e-12, a-b
    """)
bug("retro-omega", "C07", [(S, "        omdot_o = radot*sym.sqrt(cosi**2)", "        omdot_o = radot*cosi")],
    "a retrograde Keplerian orbit with a weight on the argument of periapsis", "maximum rate of the argument of periapsis is too small for inclinations above 90 degrees", """
    f = pyqlaw.symbolic_qlaw_keplerian()[0]
    A = lambda i: f(1.0, 1e-2, np.array([1.0, .3, i, .2, .5, .3]), np.array([1.0, .3, i, .2, .9]), .1, 3.0, 4.0, 2.0, .5, 1.0, 0.0, np.array([0, 0, 0, 0, 1.0]))[2]
    assert abs(A(.4)-A(np.pi-.4)) < 1e-9*A(.4), (A(.4), A(np.pi-.4))
    """)
bug("r-petro", "C07", [(S, "        soe = [(1 + (sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]", "        soe = [sym.sqrt(1 + (sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro), 1.0, 1.0, 1.0, 1.0, 1.0]")],
    "Keplerian elements with r_petro other than its default", "the parameter r_petro is ignored", """
    f = pyqlaw.symbolic_qlaw_keplerian()[0]
    A = lambda r: f(1.0, 1e-2, np.array([9.0, .3, .4, .2, .5, .3]), np.array([1.0, .3, .4, .2, .5]), .1, 3.0, 4.0, r, .01, 1.0, 0.0, np.array([1.0, 0, 0, 0, 0]))[2]
    S = 1+(8/3)**4
    assert abs(A(4.0)/A(2.0) - S**(1/4)/S**(1/2)) < 1e-9, A(4.0)/A(2.0)
    """)
bug("grid-end", "C08", [(Q, "eval_pts = np.linspace(oe[5], oe[5]+2*np.pi, self.anomaly_grid_size+1)[1:]", "eval_pts = np.linspace(oe[5], oe[5]+2*np.pi, self.anomaly_grid_size)")],
    "effectivity thresholds", "first and last grid points coincide, best and worst rates are those of a coarser grid", """
    p = pyqlaw.QLaw(verbosity=0, anomaly_grid_size=4)
    x0 = np.array([1.0, .3, .05, .2, .1, .3])
    p.set_problem(x0, np.array([1.5, .1, .2, .2, .1]), 1.0, 1e-3, 1e-3, .05, .1); p.solve(.1, .1)
    q = lambda L: float(p.dqdt_fun(1.0, 1e-3, np.append(x0[:5], L), p.oeT, .1, 3.0, 4.0, 2.0, .01, 1.0, 1.0, p.woe))
    v = [q(.3+j*np.pi/2) for j in range(4)]
    assert abs(p.etas[0][0] - v[0]/max(v)) < 1e-9 and abs(p.etas[0][1]-(v[0]-min(v))/(max(v)-min(v))) < 1e-9, p.etas[0]
    """)
bug("eta-mass", "C08", [(Q, "                        eta_r_current = eta_r(t_iter, oe_iter, mass_iter, battery_iter)", "                        eta_r_current = eta_r(t_iter, oe_iter, self.masses[0], battery_iter)")],
    "a relative threshold function that depends on the mass, with mass flow", "threshold functions get the initial mass", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-2, 2.0, .1); p.solve(0.0, lambda t, oe, m, b: .1*m)
    for j in range(len(p.controls)): assert abs(p.etas_bounds[j][1]-.1*p.masses[j]) < 1e-15, j
    """)
bug("duty-nominal", "C09", [(Q, "                t_last_ON = t_iter      # latest time when we turn on", "                t_last_ON = t_last_OFF + self.duty_cycle[1]      # nominal time when we turn on")],
    "an OFF time that is no multiple of the step", "ON phases become shorter than configured", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 4.0, .1, duty_cycle=(.55, .21)); p.solve()
    c = "".join(str(int(u[2])) for u in p.controls)
    runs = [len(s) for s in c.strip("0").split("0") if s]
    assert len(set(runs[:-1])) == 1, c
    """)
bug("battery-on-coast", "C10", [(Q, "            # update battery\n            if duty:", "            # update battery\n            if throttle == 1:")],
    "a battery and a step coasted for lack of effectivity", "battery charges while the engine is merely ineffective", """
    x0 = np.array([1.0, .3, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([1.5, .1, .2, .2, .1]), 1.0, 1e-3, 1e-3, 3.0, .1, battery_initial=.9, battery_capacity=(.2, 1.0), battery_charge_discharge_rate=(.1, .02))
    p.solve(.9, .9)
    c = [u[2] for u in p.controls]
    assert 0 in c and np.all(np.diff(p.battery) < 0), (c, p.battery)
    """)
bug("recharge-early", "C10", [(Q, "                if battery_iter == self.battery_capacity[1]:", "                if battery_iter >= 0.98*self.battery_capacity[1]:")],
    "full recharge required and a charge step that lands just under full", "thrusting resumes before the battery is full", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 3.0, .1, battery_initial=.25, battery_capacity=(.2, 1.0), battery_charge_discharge_rate=(1.97, 1.0), require_full_recharge=True)
    p.solve()
    c = [u[2] for u in p.controls]; b = p.battery
    on = [b[j] for j in range(1, len(c)) if c[j] == 1 and c[j-1] == 0]
    assert on and all(v == 1.0 for v in on), on
    """)
bug("stale-period", "C11", [(Q, """                    E0 = mee2ea(oe_iter)
                    period = 2*np.pi*np.sqrt(oe_iter[0]**3/self.mu)""", """                    E0 = mee2ea(oe_iter)
                    period = 2*np.pi*np.sqrt(self.oe0[0]**3/self.mu)""")],
    "angle stepping in equinoctial elements over a run that changes the semi-major axis", "steps no longer advance the eccentric anomaly by the requested angle", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0, use_sundman=True)
    p.set_problem(x0, np.array([3.0, .1, .05, .2, .1]), 1.0, 1e-2, 1e-3, 60.0, .3); p.solve()
    x = np.array(p.states[-2]); dt = p.times[-1]-p.times[-2]
    e = np.hypot(x[1], x[2]); E = 2*np.arctan(np.sqrt((1-e)/(1+e))*np.tan((x[5]-np.arctan2(x[2], x[1]))/2))
    want = (.3 - e*(np.sin(E+.3)-np.sin(E)))*np.sqrt(x[0]**3)
    assert abs(dt-want) < 1e-6*want, (dt, want)
    """)
bug("retrograde", "C12", [(EL, "    i = np.arctan2(2*np.sqrt(h**2+k**2), 1-h**2-k**2)", "    i = np.arctan(2*np.sqrt(h**2+k**2)/(1-h**2-k**2))")],
    "an orbit with an inclination above 90 degrees", "retrograde orbits get a negative inclination", """
    k = np.array([1.3, .2, 2.0, .4, .5, .6])
    assert np.allclose(pyqlaw.mee2kep(pyqlaw.kep2mee(k)), k), pyqlaw.mee2kep(pyqlaw.kep2mee(k))
    """)
bug("sma-mu", "C13", [(EL, "    e = la.norm( get_eccentricity(state, mu) )\n    # semi-major axis\n    a = h**2 / (mu*(1 - e**2))", "    e = la.norm( get_eccentricity(state, mu) )\n    # semi-major axis\n    a = h**2 / (mu*abs(1 - e**2))")],
    "a hyperbolic state", "hyperbolic states get a positive semi-major axis and a period", """
    from pyqlaw._elements import get_semiMajorAxis, get_period
    s = np.array([1.0, 0, 0, 0, 1.6, .2])
    a = 1/(2-(1.6**2+.04))
    assert abs(get_semiMajorAxis(s, 1.0)-a) < 1e-9 and get_period(s, 1.0) == -1
    """)
bug("rk4-time", "C14", [(I, "    k4 = rhs(t + h, y + h * k3, p)", "    k4 = rhs(t + 0.5 * h, y + h * k3, p)")],
    "a right-hand side that depends on time", "rk4 loses its order on non-autonomous problems", """
    from numba import njit
    from pyqlaw._integrate import rk4
    @njit
    def f(t, y, p): return np.array([p*t**3])
    assert abs(rk4(f, 1.0, .5, np.array([0.0]), 4.0)[0] - (1.5**4-1)) < 1e-12
    """)
bug("mee-p-term", "C15", [(M, "        [ sqrt_pmu*sinL, sqrt_pmu/w*((w+1)*cosL + f), -g/w*sqrt_pmu*(h*sinL - k*cosL)],\n        [-sqrt_pmu*cosL, sqrt_pmu/w*((w+1)*sinL + g),  f/w*sqrt_pmu*(h*sinL - k*cosL)],\n        [0.0, 0.0, sqrt_pmu/w * 0.5*(1 + h**2 + k**2)*cosL],\n        [0.0, 0.0, sqrt_pmu/w * 0.5*(1 + h**2 + k**2)*sinL],\n        [0.0, 0.0, sqrt_pmu/w * (h*sinL - k*cosL)]\n    ])\n\n    # combine\n    doe = np.dot(psi, u + ptrb_RTN) + np.array([0.0, 0.0, 0.0, 0.0, 0.0, np.sqrt(mu*p)*(w/p)**2])\n    return doe\n\n\n@njit\ndef eom_mee_with_a_gauss",
  "        [ sqrt_pmu*sinL, sqrt_pmu/w*((w+1)*cosL + f), -g/w*sqrt_pmu*(h*sinL - k*cosL)],\n        [-sqrt_pmu*cosL, sqrt_pmu/w*((w+1)*sinL + g),  g/w*sqrt_pmu*(h*sinL - k*cosL)],\n        [0.0, 0.0, sqrt_pmu/w * 0.5*(1 + h**2 + k**2)*cosL],\n        [0.0, 0.0, sqrt_pmu/w * 0.5*(1 + h**2 + k**2)*sinL],\n        [0.0, 0.0, sqrt_pmu/w * (h*sinL - k*cosL)]\n    ])\n\n    # combine\n    doe = np.dot(psi, u + ptrb_RTN) + np.array([0.0, 0.0, 0.0, 0.0, 0.0, np.sqrt(mu*p)*(w/p)**2])\n    return doe\n\n\n@njit\ndef eom_mee_with_a_gauss")],
    "normal acceleration in the equations with the semilatus rectum", "dg/dt under normal acceleration is wrong", """
    from pyqlaw._eom import eom_mee_gauss as f
    z = np.zeros(5); x = np.array([1.1, .1, .25, .2, .3, .4])
    d = f(0.0, x, (1.0, np.array([0, 0, .1]), z, z, z, np.zeros(3)))
    w = 1+.1*np.cos(.4)+.25*np.sin(.4)
    assert abs(d[2]-.1*.1/w*np.sqrt(1.1)*(.2*np.sin(.4)-.3*np.cos(.4))) < 1e-14, d
    """)
bug("j2-epoch", "C16", [(R, "            T_ECI2PA = spice.pxform(self.frame_qlaw, self.frame_PA, et)", "            T_ECI2PA = spice.pxform(self.frame_qlaw, self.frame_PA, self.et_ref)")],
    "J2 in a frame whose axis moves (or is not the pole) evaluated at t > 0", "oblateness is evaluated with the orientation at the reference epoch", """
    import pyqlaw._perturbations as P
    class S:
        bodvrd = staticmethod(lambda *a: (1, np.array([398600.0])))
        convrt = staticmethod(lambda *a: 1.5e8)
        @staticmethod
        def pxform(a, b, et):
            c, s = np.cos(et*1e-3), np.sin(et*1e-3); return np.array([[1.0, 0, 0], [0, c, s], [0, -s, c]])
    P.spice = S
    p = P.SpicePerturbations(0.0, 6378.0, 800.0, third_bodies_names=["301"], third_bodies_gms=[0.0], use_SRP=False)
    p.third_bodies_names = []; p.third_bodies_gms = []
    x = np.array([1.5, .1, .7, .2, .4, .3])
    a, b = p.get_perturbations_RTN(0.0, x, "keplerian"), p.get_perturbations_RTN(1.0, x, "keplerian")
    assert np.linalg.norm(a-b) > 1e-3*np.linalg.norm(a)
    """)
bug("omega-turns", "C17", [(C, "        np.arccos(np.cos(oeT[4] - oe[4])),  # omega", "        oeT[4] - oe[4] if abs(oeT[4] - oe[4]) < 6.0 else np.arccos(np.cos(oeT[4] - oe[4])),  # omega")],
    "a periapsis angle just under a full turn away from the target (difference between 6.0 and 2 pi is fine, between pi and 6.0 is not) with a wide tolerance", "angles across the branch cut do not count as close", """
    oe = np.array([1.0, .1, .1, .1, .1, 0.0]); T = np.array([1.0, .1, .1, .1, .1-2*np.pi+.3])
    assert pyqlaw.check_convergence_keplerian(oe, T, np.ones(5), np.array([.1, .1, .1, .1, .4]))
    """)
bug("export-tf", "C18", [(Q, "            \"tf\": self.times[-1],", "            \"tf\": self.tf_max if self.exitcode == -2 else self.times[-1],")],
    "exporting a run that used up its time budget with a step that does not divide it", "exported final time is not that of the last state", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 1.0, .3); p.solve()
    d = p.save_to_dict(None); assert d["tf"] == d["times"][-1], (d["tf"], d["times"][-1])
    """)
bug("interp-kind", "C18", [(Q, "            f_a, f_e, f_i, f_r, f_o, f_t = self.interpolate_states(kind=kind)", "            f_a, f_e, f_i, f_r, f_o, f_t = self.interpolate_states(kind if len(self.times) > 8 else \"linear\")")],
    "interpolated Cartesian history of a run of at most seven steps", "short transfers are interpolated linearly whatever was asked", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 1.0, .2); p.solve()
    a = p.get_cartesian_history(interpolate=True, steps=17, kind="cubic")
    f = p.interpolate_states(kind="cubic"); t = np.linspace(p.times[0], p.times[-1], 17)
    b = np.array([pyqlaw.mee_with_a2sv(np.array([float(g(s)) for g in f]), 1.0) for s in t]).T
    assert np.allclose(a, b, atol=1e-9), abs(a-b).max()
    """)
bug("battery-unit", "C19", [(PM, "    ax.axhline(np.array(self.battery_capacity[1])*BU, color='g', linestyle='--', label=\"max capacity\")", "    ax.axhline(np.max(self.battery)*BU, color='g', linestyle='--', label=\"max capacity\")")],
    "a battery that never gets full", "upper line of the battery plot is the highest level reached, not the capacity", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 1.0, .2, battery_initial=.6, battery_capacity=(.2, 1.0), battery_charge_discharge_rate=(.1, .1)); p.solve()
    f, ax = p.plot_battery_history(BU=2.0)
    assert any(np.allclose(l.get_ydata(), 2.0) for l in ax.lines)
    """)
bug("mu-zero", "C20", [(Q, "        assert mu > 0, \"mu must be positive\"", "        assert mu >= 0, \"mu must be positive\"")],
    "a gravitational parameter of zero", "mu = 0 is accepted", """
    try: pyqlaw.QLaw(mu=0.0)
    except AssertionError: pass
    else: raise SystemExit("accepted")
    """)
bug("step-floor", "C21", [(Q, "            else:\n                t_step_local = self.t_step\n", "            else:\n                t_step_local = np.sign(self.t_step)*max(abs(self.t_step), self.step_min)\n")],
    "a problem in units in which the step is below 1e-4", "steps shorter than a fixed number of time units are lengthened", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 1e-4, 2e-5); p.solve()
    assert abs(p.times[1]-2e-5) < 1e-12, p.times
    """)
bug("stale-q", "C22", [(Q, "                # evaluate Lyapunov function just for psi\n                _, _, _, psi, q, qdot_current = lyapunov_control_angles(", "                # evaluate Lyapunov function just for psi\n                _, _, _, psi, q_coast, qdot_current = lyapunov_control_angles("),
    (Q, "            # compute perturbations\n", "            if not duty and idx == 0:\n                q = q_coast\n            # compute perturbations\n")],
    "a duty cycle or battery that switches the engine off after thrusting", "the recorded quotient of coasting steps is that of the last thrusting step", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-2, 0.0, 2.0, .1, duty_cycle=(.35, .25)); p.solve()
    for j in range(len(p.Qs)-1):
        if p.controls[j][2] == 1: assert p.Qs[j+1] < p.Qs[j], j
    """)
bug("print-skips-mass", "C23", [(Q, "            # check if mass is below threshold\n            if mass_iter <= self.mass_min:", "            # check if mass is below threshold\n            elif mass_iter <= self.mass_min:")],
    "verbosity of 2 or more and depletion at a step whose progress is printed", "the run outlives its propellant when progress is printed", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    n = []
    for v in (0, 2):
        p = pyqlaw.QLaw(verbosity=v, print_frequency=1)
        p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, .1, 20.0, .3, mass_min=.5); p.solve(); n.append((len(p.times), p.exitcode))
    assert n[0] == n[1], n
    """)
bug("rkf45-clock", "C05", [(Q, """                    oe_iter,
                    ode_params,
                    self.ode_tol,
                )
                t_iter += t_step_local  # update time""", """                    oe_iter,
                    ode_params,
                    self.ode_tol,
                )
                t_step_local = np.sign(t_step_local)*min(abs(t_step_local), self.step_max)
                t_iter += t_step_local  # update time""")],
    "rkf45 with steps above two time units", "the clock advances less than the state", """
    x0 = np.array([30.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0, integrator="rkf45")
    p.set_problem(x0, np.array([35.0, .1, .05, .2, .1]), 1.0, 1e-6, 1e-6, 20.0, 4.0); p.solve()
    assert abs(p.times[1]-4.0) < 1e-9, p.times
    """)
bug("psi-normal", "C06", [(L, "    dqdt = np.array(dqdoe) @ np.array(psi).T @ (f * u)\n", "    dqdt = np.array(dqdoe) @ np.array(psi).T @ (f * u)\n    if abs(beta) > 1.4:          # nearly polar thrust: keep the in-plane component\n        beta = np.sign(beta)*1.4\n")],
    "a steering direction within ten degrees of the orbit normal", "thrust is no longer the steepest descent when it is nearly normal", """
    from pyqlaw._lyapunov import lyapunov_control_angles as f
    q = pyqlaw.symbolic_qlaw_keplerian()[0]
    al, be, u, psi, Q, d = f(q, 1.0, 1e-2, np.array([1.0, .01, .3, .2, .1, 0.0]), np.array([1.0, .01, .31, .2, .1]), .1, 3.0, 4.0, 2.0, .01, 1.0, 0.0, np.array([0, 0, 1.0, 0, 0]))
    v = np.array([np.cos(be)*np.sin(al), np.cos(be)*np.cos(al), np.sin(be)])
    assert np.allclose(v, -u, atol=1e-9), (v, u)
    """)
