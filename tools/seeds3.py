"""Planted bugs, third batch (written from property texts and the code)."""
Q = "pyqlaw/_qlaw.py"; S = "pyqlaw/_symbolic.py"; EL = "pyqlaw/_elements.py"; M = "pyqlaw/_eom.py"; I = "pyqlaw/_integrate.py"
L = "pyqlaw/_lyapunov.py"; C = "pyqlaw/_convergence.py"; R = "pyqlaw/_perturbations.py"; T = "pyqlaw/_transformations.py"; PM = "pyqlaw/_plot_methods.py"; PH = "pyqlaw/_plot_helper.py"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

BASE = """
    import io, contextlib
    x0 = np.array([1.0, .1, .05, .2, .1, .3]); xT = np.array([1.5, .2, .05, .2, .1])
    def cap(f):
        b = io.StringIO()
        with contextlib.redirect_stdout(b): f()
        return b.getvalue()
"""
# C24
bug("print-clock", "C24", [(Q, "| {t_iter: 1.3e} | {oe_next[0]", "| {(idx+1)*self.t_step: 1.3e} | {oe_next[0]")],
    "progress rows of a run whose steps are not the requested ones (angle stepping, battery)", "the printed time is not that of the step", BASE+"""
    p = pyqlaw.QLaw(verbosity=2, print_frequency=3, use_sundman=True)
    p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 3.0, .2)
    o = [l for l in cap(p.solve).splitlines() if '|' in l and 'iter' not in l]
    assert o
    for l in o:
        v = l.split('|'); assert abs(float(v[1])-p.times[int(v[0])+1]) < 2e-3, l
    """)
bug("print-relaxed", "C24", [(Q, """        elif self.converge == True:
            if self.verbosity > 0:""", """        elif self.exitcode == 1:
            if self.verbosity > 0:""")],
    "a run that ends within the relaxed tolerance", "no closing line is printed", BASE+"""
    p = pyqlaw.QLaw(verbosity=1, tol_oe=[1e-9]*5, relaxed_tol_factor=1e9, exit_at_relaxed=2)
    p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 3.0, .2)
    o = cap(p.solve); assert p.exitcode == 2 and 'success' in o, o
    """)
bug("print-turns", "C24", [(Q, 'print(f"  {self.element_names[4]}  : {self.states[-1][4]:1.4e} (error: {abs(self.states[-1][4]-self.oeT[4]):1.4e})")',
    'print(f"  {self.element_names[4]}  : {self.states[-1][4]:1.4e} (error: {abs(wrap(self.states[-1][4]-self.oeT[4])):1.4e})")')],
    "result summary of a run whose fifth element ends more than pi from its target", "the printed difference is not the absolute difference to the target", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, elements_type="keplerian")
    p.set_problem(np.array([1.0, .1, .3, .2, .1, .3]), np.array([1.2, .1, .3, .2, 5.1]), 1.0, 1e-4, 1e-4, 1.0, .2); p.solve()
    l = [l for l in cap(p.pretty_results).splitlines() if 'omega' in l][0]
    assert abs(float(l.split('error:')[1].strip(' )'))-abs(p.states[-1][4]-5.1)) < 1e-3, l
    """)
bug("print-last-row", "C24", [(Q, """            # print progress
            if self.verbosity >= 2 and np.mod(idx,self.print_frequency)==0:
                if""", """            # print progress
            if self.verbosity >= 2 and np.mod(idx,self.print_frequency)==0 and mass_iter > self.mass_min:
                if""")],
    "verbosity of 2 and depletion on a step whose row is due", "the row of the depleting step is missing", BASE+"""
    p = pyqlaw.QLaw(verbosity=2, print_frequency=1)
    p.set_problem(x0, xT, 1.0, 1e-3, 1.0, 30.0, .25, mass_min=.3)
    o = [l for l in cap(p.solve).splitlines() if '|' in l and 'iter' not in l]
    assert p.exitcode == -1 and len(o) == len(p.times)-1, len(o)
    """)
# C25
bug("gentle-arrival", "C25", [(Q, """            # compute instantaneous acceleration magnitude due to thrust
            accel_thrust = self.tmax/mass_iter
""", """            # compute instantaneous acceleration magnitude due to thrust
            accel_thrust = self.tmax/mass_iter
            if self.check_convergence(oe_iter, self.oeT, self.woe, 2*self.tol_oe):
                accel_thrust *= 0.5     # ease off close to the target
""")],
    "a state between once and twice the tolerance from the target", "the tolerance changes the motion, not only its end", BASE+"""
    xT = np.array([1.01, .1, .05, .2, .1]); w = [1, 0, 0, 0, 0]
    def go(tol):
        p = pyqlaw.QLaw(verbosity=0, tol_oe=tol); p.set_problem(x0, xT, 1.0, 1e-2, 1e-3, 6.0, .01, woe=w); p.solve(); return p
    a, b = go([1e-3]*5), go([1e-9]*5)
    n = len(a.states); assert a.exitcode == 1 and n > 5
    assert np.array_equal(np.array(a.states), np.array(b.states)[:n])
    """)
bug("mass-cut", "C25", [(Q, """            # initialize efficiency parameters for storage
""", """            # do not burn more than is left
            if not self.use_sundman and 0 < mass_iter - self.mass_min < self.mdot*t_step_local:
                t_step_local = (mass_iter - self.mass_min)/self.mdot

            # initialize efficiency parameters for storage
""")],
    "the last step before the tanks are empty", "the minimum mass changes a step instead of only ending the run", BASE+"""
    def go(m):
        p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, .3, 3.0, .25, mass_min=m); p.solve(); return p
    a, b = go(.71), go(.05)
    n = len(a.times); assert a.exitcode == -1 and a.times == b.times[:n], (a.times, b.times[:n])
    """)
bug("late-fine", "C25", [(Q, """            else:
                t_step_local = self.t_step
""", """            else:
                t_step_local = self.t_step if idx < 500 else 0.5*self.t_step    # refine the terminal phase
""")],
    "a run of more than 500 steps", "later steps are shorter than requested; a continued run differs from the original", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-5, 1e-6, 6.0, .01); p.solve()
    assert np.allclose(np.diff(p.times), .01, atol=1e-12), np.diff(p.times)[[0, -1]]
    """)
# C26 / C06
bug("steering-hold", "C06", [(Q, """            if duty:
                # evaluate Lyapunov function
                alpha, beta, _, psi, q, qdot_current = lyapunov_control_angles(""", """            if duty:
                # evaluate Lyapunov function
                last = (alpha, beta)
                alpha, beta, _, psi, q, qdot_current = lyapunov_control_angles("""), (Q, """                # ensure angles are not nan and otherwise compute thrust vector
                throttle = 1   # initialize
""", """                # small re-orientations are not worth a manoeuvre
                if 0 < abs(alpha - last[0]) < 0.05 and 0 < abs(beta - last[1]) < 0.05 and t_step_local > 0 and idx > 0:
                    alpha, beta = last

                # ensure angles are not nan and otherwise compute thrust vector
                throttle = 1   # initialize
""")],
    "steps so short that the steering changes slowly", "the steering law is not followed where it turns slowly; transfers take longer", BASE+"""
    xT = np.array([1.0, .3, .15, .4, .2])
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 2.0, .01); p.solve()
    from pyqlaw import lyapunov_control_angles as lc
    for x, m, c in zip(p.states, p.masses, p.controls):
        a, b = lc(p.lyap_fun, 1.0, 1e-3/m, x, p.oeT, .1, 3.0, 4.0, 2.0, .01, 1.0, 1.0, p.woe)[:2]
        assert abs(a-c[0]) + abs(b-c[1]) < 1e-9
    """)
bug("weights-unit", "C06", [(L, "    # compute thrust angles\n    u_float = np.array([float(el) for el in u_raw])\n", "    # compute thrust angles\n    u_float = np.array([float(el) for el in u_raw])\n    if abs(u_float[0]) < 0.02*abs(u_float[1]):\n        u_float[0] = 0.0     # nearly tangential\n    elif abs(u_float[2]) < 0.1*abs(u_float[1]) and oe[0] > 0 and abs(u_float[0]) > 0.5*abs(u_float[1]):\n        u_float[2] = 0.0     # nearly planar\n")],
    "steering with large radial and small normal part, or almost no radial part", "small components of the steering are suppressed: not the steepest descent", BASE+"""
    from pyqlaw import lyapunov_control_angles as lc
    p = pyqlaw.QLaw(verbosity=0); worst = 0
    for th in np.linspace(0, 6.28, 200):
        x = np.array([1.0, .3, .05, .2, .1, th]); w = np.ones(5)
        a, b, u = lc(p.lyap_fun, 1.0, 1e-3, x, np.array([1.02, .1, .05, .21, .1]), .1, 3.0, 4.0, 2.0, .01, 1.0, 1.0, w)[:3]
        r = np.array(p.lyap_fun(1.0, 1e-3, x, np.array([1.02, .1, .05, .21, .1]), .1, 3.0, 4.0, 2.0, .01, 1.0, 1.0, w)[0], float)
        worst = max(worst, np.max(np.abs(u-r/np.linalg.norm(r))))
    assert worst < 1e-9, worst
    """)
# C02
bug("weights-normalised", "C02", [(Q, "            self.woe = np.array(woe)\n", "            self.woe = np.asarray(woe, dtype=float)\n            if self.woe.max() > 1.0:\n                self.woe /= self.woe.max()\n")],
    "weights given as a float array with an entry above one", "the caller's weights are overwritten", BASE+"""
    w = np.array([2.0, 1.0, 1.0, 1.0, 1.0])
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 1.0, .1, woe=w)
    assert w[0] == 2.0, w
    """)
bug("plot-wraps", "C02", [(PM, """        ax.plot(np.array(self.times)*TU, wrap(np.array(self.states)[:,5])*180/np.pi,
                color='grey', label="Anomaly", lw=0.35)""", """        for state in self.states:
            state[5] = wrap(state[5])
        ax.plot(np.array(self.times)*TU, np.array(self.states)[:,5]*180/np.pi,
                color='grey', label="Anomaly", lw=0.35)""")],
    "plotting the controls of a run that lasts more than half a revolution", "plotting changes the recorded anomalies (and the initial state of the caller)", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 7.0, .1); p.solve()
    a = np.array(p.states); p.plot_controls(); assert np.array_equal(a, np.array(p.states))
    """)
bug("shared-cycle", "C02", [(Q, """        # duty cycles
        self.duty_cycle = duty_cycle
""", """        # duty cycles
        if duty_cycle[1] > 0 or not self.ready or not hasattr(self, "duty_cycle"):
            self.duty_cycle = duty_cycle
""")],
    "a problem with a duty cycle, then one without on the same object", "the duty cycle of an earlier problem applies to a later one", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 1.0, .1, duty_cycle=(.2, .2)); p.solve()
    p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 1.0, .1); p.solve()
    assert all(c[2] == 1 for c in p.controls)
    """)
# C01
bug("relaxed-equal", "C20", [(Q, "        self.tol_oe_relaxed = relaxed_tol_factor*self.tol_oe  # relaxed tolerance\n", "        self.tol_oe_relaxed = relaxed_tol_factor*self.tol_oe if relaxed_tol_factor > 1 else np.zeros(5)  # relaxed tolerance\n")],
    "a relaxation factor of exactly one together with exit on strict tolerance", "the relaxed tolerance of a factor one is nought", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, relaxed_tol_factor=1, tol_oe=[1e-2]*5)
    assert np.allclose(p.tol_oe_relaxed, 1e-2)
    """)
bug("tank-coast", "C01", [(Q, "            if mass_iter <= self.mass_min:\n                if self.verbosity > 0:", "            if throttle == 1 and mass_iter <= self.mass_min:\n                if self.verbosity > 0:")],
    "a problem that starts at or below the minimum mass with the engine unavailable", "a run goes on although the tanks are empty", BASE+"""
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 2.0, .1, mass_min=1.0, battery_initial=.2, battery_charge_discharge_rate=(.1, .1), require_full_recharge=True); p.solve()
    assert p.exitcode == -1 and len(p.times) == 2, (p.exitcode, len(p.times))
    """)
# C03
bug("coast-angles", "C03", [(Q, "            self.controls.append([alpha, beta, throttle])\n", "            self.controls.append([alpha, beta, throttle if val_eta_r != val_eta_r else int(throttle)*val_eta_r**0 if val_eta_r <= 1 else throttle*val_eta_r])\n")],
    "a relative effectivity that rounds to just above one", "a throttle other than 0 or 1 is recorded", BASE+"""
    bad = 0
    for g in (1, 2, 3, 5, 8):
      for s in range(12):
        p = pyqlaw.QLaw(verbosity=0, anomaly_grid_size=g)
        p.set_problem(np.array([1.0, .1+.01*s, .05, .2, .1, .3]), xT, 1.0, 1e-3, 1e-3, 7.0, .05); p.solve(eta_r=.01)
        bad += sum(c[2] not in (0, 1) for c in p.controls)
    assert bad == 0, bad
    """)
# C04
bug("refuel-stop", "C04", [(Q, """                t_iter += t_step_local  # update time
                if throttle == 1:
                    mass_iter -= self.mdot*t_step_local  # update mass
                oe_iter = oe_next
                t_step_local = max(""", """                t_iter += t_step_local  # update time
                if throttle == 1:
                    mass_iter = min(mass_iter - self.mdot*t_step_local, self.mass0)  # update mass
                oe_iter = oe_next
                t_step_local = max(""")],
    "backward propagation with rkf45 and mass flow", "mass does not grow backward in time", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, integrator="rkf45"); p.set_problem(x0, xT, 1.0, 1e-3, 1e-2, -1.0, -.1); p.solve()
    assert np.allclose(np.diff(p.masses), 1e-3), p.masses
    """)
bug("nan-burn", "C04", [(Q, "                    alpha, beta = 0.0, 0.0\n                    throttle = 0  # turn off\n", "                    alpha, beta = 0.0, 0.0\n                    throttle = 1 if self.nan_angles_threshold > 10 else 0  # turn off\n")],
    "undefined steering with a threshold above ten", "propellant is booked for steps without steering", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, k_petro=1e7, rpmin=9.0, nan_angles_threshold=15); p.set_problem(x0, xT, 1.0, 1e-3, 1e-2, 1.0, .1); p.solve()
    assert np.all(np.diff(p.masses) == 0), p.masses
    """)
# C05
bug("small-ecc", "C05", [(M, "        [p*np.cos(ta) / ( ecc*h ), - (p+r)*np.sin(ta) / ( ecc*h ), 0.0],", "        [p*np.cos(ta) / ( max(ecc, 5e-3)*h ), - (p+r)*np.sin(ta) / ( max(ecc, 5e-3)*h ), 0.0],")],
    "Keplerian elements with an eccentricity below 0.005", "the anomaly does not follow the turning periapsis of nearly circular orbits", BASE+"""
    x = np.array([1.0, 1e-3, .5, .2, .1, 1.0]); u = np.array([1e-4, 2e-4, 0.0]); psi = [np.zeros(5)]*3
    d = pyqlaw.eom_kep_gauss(0.0, x, (1.0, u, psi[0], psi[1], psi[2], np.zeros(3)))
    d0 = pyqlaw.eom_kep_gauss(0.0, x, (1.0, 0*u, psi[0], psi[1], psi[2], np.zeros(3)))
    p = 1-1e-6; h = p**.5; r = p/(1+1e-3*np.cos(1.0))
    assert abs((d-d0)[5] - (p*np.cos(1.0)*1e-4 - (p+r)*np.sin(1.0)*2e-4)/(1e-3*h)) < 1e-9
    """)
bug("ptrb-rkf", "C05", [(Q, "            # step actually taken,", "            # step actually taken,")] and [(M, "    doe = np.dot(psi, u + ptrb_RTN) + np.array([0.0, 0.0, 0.0, 0.0, 0.0, np.sqrt(mu*p)*(w/p)**2])\n    return doe\n\n\n@njit\ndef eom_mee_with_a", "    doe = np.dot(psi, u + ptrb_RTN) + np.array([0.0, 0.0, 0.0, 0.0, 0.0, np.sqrt(mu*p)*(w/p)**2])\n    return doe\n\n\n@njit\ndef eom_mee_with_a")],
    "", "", "")
BUGS.pop()
bug("ptrb-epoch", "C05", [(Q, "self.perturbations.get_perturbations_RTN(t_iter, oe_iter, self.elements_type)", "self.perturbations.get_perturbations_RTN(t_iter if self.integrator == 'rk4' else idx*t_step_local, oe_iter, self.elements_type)")],
    "rkf45 with a time-dependent perturbation and steps that are not all alike (angle stepping, battery)", "the perturbation is taken at the wrong time", BASE+"""
    ts = []
    class P:
        def get_perturbations_RTN(self, t, oe, kind): ts.append(t); return np.zeros(3)
    p = pyqlaw.QLaw(verbosity=0, integrator="rkf45", use_sundman=True, perturbations=P()); p.set_problem(x0, xT, 1.0, 1e-3, 1e-2, 3.0, .2); p.solve()
    assert np.allclose(ts, p.times[:-1], atol=1e-12)
    """)
# C06
bug("cse-psi", "C06", [(S, """        fun_eval_psi = lambdify(
            [mu, f, oe, oeT, rpmin, m_petro, n_petro, r_petro, b_petro, k_petro, wp, woe], 
            psi, 
            "numpy",
            cse = cse,
        )""", """        fun_eval_psi = lambdify(
            [mu, f, oe, oeT, rpmin, m_petro, n_petro, r_petro, b_petro, k_petro, wp, woe], 
            psi if cse else [list(c) for c in zip(*psi)], 
            "numpy",
            cse = cse,
        )""")],
    "the Keplerian functions generated without common-subexpression elimination", "control columns come out transposed", BASE+"""
    k = np.array([1.0, .1, .3, .2, .1, .3]); a = (1.0, 1e-3, k, k[:5]*1.2, .1, 3.0, 4.0, 2.0, .01, 1.0, 1.0, np.ones(5))
    assert np.allclose(pyqlaw.symbolic_qlaw_keplerian(cse=False)[1](*a), pyqlaw.symbolic_qlaw_keplerian()[1](*a))
    """)
bug("dqdt-mee", "C06", [(S, "            dqdoe4*(psi[0][4]*ux_unit + psi[1][4]*uy_unit + psi[2][4]*uz_unit))\n\n        fun_lyapunov_control = lambdify(\n            [mu, accel,", "            dqdoe4*(psi[0][4]*ux_unit + psi[1][3]*uy_unit + psi[2][3]*uz_unit))\n\n        fun_lyapunov_control = lambdify(\n            [mu, accel,")],
    "equinoctial problems with an error in k", "the separately generated rate is not that of the control function", BASE+"""
    x = np.array([1.0, .1, .05, .2, .1, .7]); xT = np.array([1.2, .1, .05, .2, .4]); a = (1.0, 1e-3, x, xT, .1, 3.0, 4.0, 2.0, .01, 1.0, 1.0, np.ones(5))
    g = pyqlaw.symbolic_qlaw_mee_with_a(); r = pyqlaw.lyapunov_control_angles(g[0], *a)[5]
    assert abs(abs(r)-abs(g[3](*a))) < 1e-9*abs(r), (r, g[3](*a))
    """)
# C07
bug("raan-sin", "C07", [(S, "        radot = p*f/(h*sini*(sym.sqrt(1 - e**2*cosom**2) - e*sym.sqrt((sinom**2))))  # FIXME", "        radot = p*f/(h*sini*(sym.sqrt(1 - e**2*cosom**2) - e*sinom))  # FIXME")],
    "a periapsis in the southern hemisphere with a weight on the node", "the maximum rate of the node is too small", BASE+"""
    k = np.array([1.0, .3, .5, .2, .1, .3]); g = pyqlaw.symbolic_qlaw_keplerian()[0]
    def q(om): return g(1.0, 1e-3, np.array([1.0, .3, .5, .2, om, .3]), np.array([1.0, .3, .5, .6, om]), .1, 3.0, 4.0, 2.0, .01, 1.0, 1.0, np.ones(5))[2]
    assert abs(q(1.1)-q(-1.1)) < 1e-9*q(1.1), (q(1.1), q(-1.1))
    """)
bug("soe-current", "C07", [(S, "            (1 + (sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro), \n            1.0, 1.0, 1.0, 1.0", "            (1 + (sym.sqrt((a-aT)**2)/(m_petro*sym.Max(a,aT)))**n_petro)**(1/r_petro), \n            1.0, 1.0, 1.0, 1.0")],
    "an orbit well above its target", "the scaling of the semi-major axis error is too small above the target", BASE+"""
    g = pyqlaw.symbolic_qlaw_mee_with_a()[0]
    def q(a, m): return g(1.0, 1e-3, np.array([a, .1, .05, .2, .1, .3]), np.array([1.0, .1, .05, .2, .1]), .1, m, 4.0, 2.0, .01, 1.0, 1.0, np.ones(5))[2]
    assert abs(q(4.0, 1.0)/q(4.0, 1e6) - (1+3.0**4)**.5) < 1e-6
    """)
# C08
bug("grid-mass", "C08", [(Q, """                        qdot_min, qdot_max = self.evaluate_osculating_qdot(
                            oe_iter, accel_thrust
                        )""", """                        qdot_min, qdot_max = self.evaluate_osculating_qdot(
                            oe_iter, self.tmax/self.masses[max(0, len(self.masses)-2)]
                        )""")],
    "effectivity thresholds with noticeable mass flow", "best and worst rate are those of the mass one step earlier", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, anomaly_grid_size=1); p.set_problem(x0, xT, 1.0, 1e-3, .1, 1.0, .1); p.solve(eta_a=.01)
    e = np.array(p.etas)[:, 0]; assert np.allclose(e, 1, atol=1e-12), e
    """)
bug("eta-callable-skip", "C08", [(Q, "                    if eta_r_current > 0 or eta_a_current > 0:\n", "                    if eta_r_current > 0 or (eta_a_current > 0 and not callable(eta_r)):\n")],
    "an absolute threshold together with a relative threshold function that is zero at times", "the absolute threshold is ignored while the relative function returns zero", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 7.0, .1); p.solve(eta_a=.9, eta_r=lambda t, oe, m, b: 0.0)
    assert any(c[2] == 0 for c in p.controls)
    """)
# C09
bug("coast-counts", "C09", [(Q, """                            throttle = 0  # turn off
                            u = np.zeros((3,))
""", """                            throttle = 0  # turn off
                            u = np.zeros((3,))
                            t_last_ON = t_iter      # engine rests anyway
""")],
    "a duty cycle together with coasting for lack of effectivity", "ON phases get longer by coasted steps", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 7.0, .1, duty_cycle=(.45, .35)); p.solve(eta_a=.9)
    q = pyqlaw.QLaw(verbosity=0); q.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 7.0, .1, duty_cycle=(.45, .35)); q.solve()
    on = lambda p: [np.isfinite(e[0]) for e in p.etas]
    q2 = pyqlaw.QLaw(verbosity=0); q2.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 7.0, .1, duty_cycle=(.45, .35)); q2.solve(eta_a=1e-12)
    assert on(p) == on(q2)
    """)
bug("duty-int", "C09", [(Q, "        self.duty_cycle = duty_cycle\n", "        self.duty_cycle = duty_cycle if duty_cycle[1] < 1e3*abs(t_step) else (duty_cycle[0], 1e3*abs(t_step))\n")],
    "an OFF duration of more than a thousand steps", "OFF phases are cut to a thousand steps", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-6, 1e-7, 11.0, .01, duty_cycle=(.055, 12.0)); p.solve()
    assert not any(c[2] for c in p.controls[6:])
    """)
# C10
bug("zero-floor", "C10", [(Q, "        self.battery_capacity = battery_capacity\n", "        self.battery_capacity = (battery_capacity[0] or 0.2*battery_capacity[1], battery_capacity[1])\n")],
    "a battery that may be emptied entirely (minimum zero)", "the minimum level is not the configured one", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 1.5, .1, battery_initial=.3, battery_capacity=(0.0, 1.0), battery_charge_discharge_rate=(.1, .25)); p.solve()
    assert min(p.battery) < .05, p.battery
    """)
bug("latch-duty", "C10", [(Q, """                duty = True             # turn on duty cycle
                t_last_ON = t_iter      # latest time when we turn on
""", """                duty = True             # turn on duty cycle
                t_last_ON = t_iter      # latest time when we turn on
                if self.duty_cycle[0] < 1e6:
                    charging = False    # a new cycle starts
""")],
    "full recharge together with a duty cycle", "the duty cycle ends the recharge phase early", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 8.0, .1, battery_initial=.3, battery_capacity=(.2, .8), battery_charge_discharge_rate=(.2, .3), require_full_recharge=True, duty_cycle=(5.0, .25)); p.solve()
    th = [c[2] for c in p.controls]; b = p.battery
    j = b.index(min(b)); k = next(i for i in range(j, len(th)) if th[i]); assert b[k] >= .8-1e-12, b[k]
    """)
# C11
bug("near-circular", "C11", [(Q, "                M1 = E1 - ecc_iter*np.sin(E1)\n", "                M1 = E1 - ecc_iter*np.sin(E1) if ecc_iter > 1e-2 else E1 - E0 + M0\n")],
    "angle stepping on an orbit with an eccentricity below 0.01", "steps of nearly circular orbits last as long as on a circle", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, use_sundman=True); p.set_problem(np.array([1.0, 8e-3, .003, .2, .1, .3]), xT, 1.0, 1e-9, 1e-9, 1.0, .5); p.solve()
    e = np.hypot(8e-3, .003); E = 2*np.arctan(np.sqrt((1-e)/(1+e))*np.tan((.3-np.arctan2(.003, 8e-3))/2))
    assert abs(p.times[1] - (.5 - e*(np.sin(E+.5)-np.sin(E)))) < 1e-7
    """)
bug("gm-cache", "C11", [(Q, """                elif self.elements_type=="mee_with_a":
                    ecc_iter = np.sqrt(oe_iter[1]**2 + oe_iter[2]**2)
                    E0 = mee2ea(oe_iter)
                    period = 2*np.pi*np.sqrt(oe_iter[0]**3/self.mu)""", """                elif self.elements_type=="mee_with_a":
                    ecc_iter = np.sqrt(oe_iter[1]**2 + oe_iter[2]**2)
                    E0 = mee2ea(oe_iter)
                    period = 2*np.pi*np.sqrt(abs(oe_iter[0]*oe_iter[0]*self.oe0[0])/self.mu)""")],
    "angle stepping after the semi-major axis has changed", "step durations use the initial semi-major axis in part", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, use_sundman=True); p.set_problem(x0, xT, 1.0, 2e-2, 1e-9, 12.0, .25); p.solve()
    x = p.states[-2]; e = np.hypot(x[1], x[2]); E = 2*np.arctan(np.sqrt((1-e)/(1+e))*np.tan((x[5]-np.arctan2(x[2], x[1]))/2))
    assert abs(x[0]-1) > .02 and abs(p.times[-1]-p.times[-2] - (.25 - e*(np.sin(E+.25)-np.sin(E)))*x[0]**1.5) < 1e-7
    """)
# C12
bug("small-aop", "C12", [(EL, "    if (aop != 0.0):", "    if (np.abs(aop) > 1e-4):")],
    "an argument of periapsis within 1e-4 of zero", "position and velocity are off by up to 1e-4", BASE+"""
    s = pyqlaw.kep2sv(np.array([1.0, .3, .5, .4, 9e-5, .7]), 1.0); t = pyqlaw.kep2sv(np.array([1.0, .3, .5, .4, 0.0, .7]), 1.0)
    assert np.linalg.norm(s-t) > 1e-6
    """)
bug("omega-south", "C12", [(EL, "        if ecc[2] < 0:", "        if ecc[2] < 0 and mu > 0 and la.norm(ecc) > 1e-3:")],
    "a nearly circular orbit (eccentricity below 0.001) with periapsis south of the equator", "the argument of periapsis is mirrored", BASE+"""
    k = np.array([1.0, 5e-4, .5, .4, 4.0, .7]); s = pyqlaw.kep2sv(k, 1.0)
    assert np.linalg.norm(pyqlaw.kep2sv(pyqlaw.sv2kep(s, 1.0), 1.0)-s) < 1e-8
    """)
# C13
bug("period-para", "C13", [(EL, "    if a < 0:\n        period = -1", "    if a < 0 and la.norm(get_eccentricity(state, mu)) > 1.05:\n        period = -1")],
    "a barely hyperbolic state (eccentricity up to 1.05)", "its period is not negative", BASE+"""
    e = 1.02; s = np.array([1.0, 0, 0, 0, np.sqrt(1+e), 0.0])
    assert pyqlaw.get_period(s, 1.0) < 0
    """)
bug("orbit-raan", "C13", [(EL, "    tas = np.linspace(0.0, 2*np.pi, steps)\n", "    tas = np.linspace(0.0, 2*np.pi, steps) if ecc < 0.7 else 2*np.arctan2(np.sqrt(1+ecc)*np.sin(np.linspace(0.0, np.pi, steps)), np.sqrt(1-ecc)*np.cos(np.linspace(0.0, np.pi, steps)))\n")],
    "sampling an orbit with an eccentricity of 0.7 or more", "samples are equal in eccentric, not true anomaly", BASE+"""
    c = pyqlaw.get_orbit_coordinates(np.array([1.0, .8, 0.0, 0.0, 0.0, 0.0]), 1.0, 9)
    assert abs(np.arctan2(c[1, 1], c[0, 1]) - np.pi/4) < 1e-9
    """)
# C14
bug("rkf-fifth", "C14", [(I, "    h_next = h*0.84*(tol/error)**(1/4)\n", "    h_next = h*0.84*(tol/error)**(1/4) if error > tol else h*0.84*(tol/error)**(1/5)\n")],
    "a Fehlberg step whose error is below the tolerance", "the suggestion scales with the fifth root", BASE+"""
    from numba import njit
    @njit
    def f(t, y, p): return -y
    a = pyqlaw.rkf45(f, 0.0, .1, np.array([1.0]), 0.0, 1e-3)[1]; b = pyqlaw.rkf45(f, 0.0, .1, np.array([1.0]), 0.0, 1e-2)[1]
    assert abs(b/a - 10**.25) < 1e-9, b/a
    """)
# C15
bug("eom-mee-h", "C15", [(M, "        [0.0, 0.0, sqrt_pmu/w * 0.5*(1 + h**2 + k**2)*sinL],\n        [0.0, 0.0, sqrt_pmu/w * (h*sinL - k*cosL)]\n    ])\n\n    # combine\n    doe = np.dot(psi, u + ptrb_RTN) + np.array([0.0, 0.0, 0.0, 0.0, 0.0, np.sqrt(mu*p)*(w/p)**2])\n    return doe\n\n\n@njit\ndef eom_mee_with_a", "        [0.0, 0.0, sqrt_pmu/w * 0.5*(1 + h**2 + k**2)*sinL],\n        [0.0, 0.0, sqrt_pmu/w * (h*sinL - k*cosL)]\n    ])\n    if h**2 + k**2 > 1.0:\n        psi[3:5,2] = -psi[3:5,2]    # retrograde\n\n    # combine\n    doe = np.dot(psi, u + ptrb_RTN) + np.array([0.0, 0.0, 0.0, 0.0, 0.0, np.sqrt(mu*p)*(w/p)**2])\n    return doe\n\n\n@njit\ndef eom_mee_with_a")],
    "equations with the semilatus rectum on a retrograde orbit", "h and k change with the wrong sign", BASE+"""
    from pyqlaw._eom import eom_mee_gauss
    x = np.array([1.0, .1, .05, 1.2, .6, .3]); z = [np.zeros(5)]*3; q = lambda u: eom_mee_gauss(0.0, x, (1.0, np.array([0, 0, u]), z[0], z[1], z[2], np.zeros(3)))
    d = (q(1e-3)-q(0.0))[3]; assert d*np.cos(.3) > 0
    """)
# C16
bug("far-body", "C16", [(R, "    F = q*((3 + 3*q + q**2)/(1 + np.sqrt(1+q)**3))\n", "    F = q*((3 + 3*q + q**2)/(1 + np.sqrt(1+q)**3)) if np.abs(q) > 1e-2 else 1.5*q\n")],
    "a third body more than a hundred times farther away than the spacecraft", "the third-body term loses its second-order part", BASE+"""
    from mpmath import mp, matrix
    mp.dps = 40
    r = np.array([1.0, .3, -.2]); s = np.array([250.0, 90.0, 10.0])
    a = pyqlaw.perturbation_third_body_battin(r, s, 7.0)
    d = [mp.mpf(x)-mp.mpf(y) for x, y in zip(r, s)]; dn = mp.sqrt(sum(x*x for x in d)); sn = mp.sqrt(sum(mp.mpf(x)**2 for x in s))
    e = np.array([float(-7*(x/dn**3 + mp.mpf(y)/sn**3)) for x, y in zip(d, s)])
    assert np.linalg.norm(a-e) < 1e-7*np.linalg.norm(e), (a, e)
    """)
bug("srp-shadow", "C16", [(R, "            r_sun2sc = rv_ECI[0:3] - pos_sun_km/self.LU\n", "            r_sun2sc = rv_ECI[0:3] - pos_sun_km/self.LU\n            if np.dot(rv_ECI[0:3], pos_sun_km) < 0:\n                r_sun2sc = -pos_sun_km/self.LU\n")],
    "radiation pressure on the night side", "the spacecraft's own position is neglected on the night side", """
    import pyqlaw._perturbations as P
    class F:
        def bodvrd(self, i, n, k): return 1, [4.0e5]
        def spkpos(self, *a): return np.array([2e4, 0.0, 0.0]), 0.0
        def convrt(self, x, a, b): return 1.5e8
    P.spice = F()
    o = P.SpicePerturbations(0.0, 6378.0, 800.0, use_J2=False, third_bodies_names=None)
    a = o.get_perturbations_RTN(0.0, np.array([1.2, .001, .1, .2, .3, 2.5]), "keplerian")
    rv = pyqlaw.kep2sv(np.array([1.2, .001, .1, .2, .3, 2.5]), o.obs_mu); d = rv[:3]-np.array([2e4, 0, 0])/6378.0
    e = P.pxformECI2RTN(rv[:3], rv[3:]) @ P.perturbation_SRP(d, 1.5e8/6378.0, o.k_srp)
    assert np.allclose(a, e, rtol=1e-9), (a, e)
    """)
bug("gms-order", "C16", [(R, "            self.third_bodies_gms = third_bodies_gms if third_bodies_gms is not None else []\n", "            self.third_bodies_gms = third_bodies_gms[:1]*len(third_bodies_gms) if third_bodies_gms is not None else []\n")],
    "", "", "")
BUGS.pop()
# C17
bug("conv-relative", "C17", [(C, """    doe = np.abs(oeT[0:5] - oe[0:5])
""", """    doe = np.abs(oeT[0:5] - oe[0:5])
    if oeT[0] > 10.0:
        doe[0] = doe[0]/oeT[0]      # relative for large orbits
""")],
    "an equinoctial target with a semi-major axis above ten units", "the first tolerance is taken as relative", BASE+"""
    x = np.array([20.0, .1, .05, .2, .1, .3]); y = x[:5].copy(); y[0] += .01
    assert not pyqlaw.check_convergence_mee(x, y, np.ones(5), np.full(5, 1e-3))
    """)
# C18
bug("unit-throttle", "C18", [(Q, "            uR = np.cos(betas) * np.sin(alphas)\n", "            uR = np.cos(betas) * np.sin(alphas) * (taus if np.any(taus[:-1] == 0) else 1)\n")],
    "exporting unit vectors of a run with a coast", "exported directions are no unit vectors", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 7.0, .1, duty_cycle=(1.0, 1.0)); p.solve()
    c = np.array(p.save_to_dict(None)["controls"]); assert np.allclose(np.linalg.norm(c[:, :3], axis=1), 1)
    """)
bug("interp-turns", "C18", [(Q, "        f_t = interp1d(self.times, state_matrix[5,:], kind=kind)\n", "        f_t = interp1d(self.times, wrap(state_matrix[5,:]) if np.abs(state_matrix[5,0]) > 2*np.pi else state_matrix[5,:], kind=kind)\n")],
    "interpolated history of a run that starts beyond a full turn", "interpolation goes backward across the branch cut", BASE+"""
    x = x0.copy(); x[5] += 4*np.pi; c = []
    for y in (x0, x):
        p = pyqlaw.QLaw(verbosity=0); p.set_problem(y, xT, 1.0, 1e-3, 1e-3, 7.0, .1); p.solve(); c.append(p.get_cartesian_history(interpolate=True, steps=300))
    assert np.allclose(*c, atol=1e-6)
    """)
# C19
bug("eta-axis", "C19", [(PM, "    axs[1].plot(np.array(self.times[0:-1])*TU, np.array(self.etas_bounds)[:,1], label=\"eta_r_min\", linestyle='-', color='red')", "    axs[1].plot(np.array(self.times[0:-1])*TU, np.full(len(self.etas_bounds), np.nanmax(np.append(np.array(self.etas_bounds)[:,1], 0.0))), label=\"eta_r_min\", linestyle='-', color='red')")],
    "a relative threshold that changes over the run or steps with the engine unavailable", "the threshold line is constant", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 2.0, .1); p.solve(eta_r=lambda t, oe, m, b: .1+.05*t)
    f, a = p.plot_efficiency(); assert np.allclose(f.axes[1].lines[1].get_ydata(), np.array(p.etas_bounds)[:, 1])
    """)
bug("kep-degrees", "C19", [(PM, "            multipliers = [1,1,180/np.pi,180/np.pi,180/np.pi,180/np.pi]\n", "            multipliers = [1,1,180/np.pi,180/np.pi,180/np.pi,180/np.pi]\n            oes[3:5,idx] = oes[3:5,idx] % (2*np.pi)\n")],
    "Keplerian element plot of an equinoctial run with node or periapsis in the lower half plane", "angles are shifted by a turn against the drawn target", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(np.array([1.0, .1, .05, .2, -.1, .3]), np.array([1.5, .2, .05, .2, -.1]), 1.0, 1e-3, 1e-3, 1.0, .1); p.solve()
    f, a = p.plot_elements_history(to_keplerian=True); ax = f.axes[3]
    assert abs(ax.lines[0].get_ydata()[0]-ax.lines[1].get_ydata()[0]) < 20
    """)
# C20
bug("tol-nested", "C20", [(Q, '            assert len(tol_oe)==5, "tol_oe must have 5 components"\n', '            assert np.size(tol_oe)>=5, "tol_oe must have 5 components"\n')],
    "a tolerance vector with six entries", "too long a tolerance vector is accepted", BASE+"""
    try: pyqlaw.QLaw(tol_oe=[1e-3]*6)
    except AssertionError: pass
    else: raise SystemExit(1)
    """)
bug("eta-int", "C20", [(Q, "        if not (isinstance(eta_r, float) or callable(eta_r)):\n", "        if not (isinstance(eta_r, (float, np.ndarray)) or callable(eta_r)):\n")],
    "", "", "")
BUGS.pop()
# C21
bug("accel-floor", "C21", [(Q, "                    # compute effectivity thresholds\n                    if isinstance(eta_a, float):", "                    # negligible thrust is not worth integrating\n                    if accel_thrust < 1e-9:\n                        u = np.zeros((3,))\n\n                    # compute effectivity thresholds\n                    if isinstance(eta_a, float):")],
    "units in which the thrust acceleration is a small number (kilometres and seconds)", "weak thrust is dropped from the motion", BASE+"""
    LU, TU = 6378.0, 806.8
    p = pyqlaw.QLaw(verbosity=0, mu=LU**3/TU**2, rpmin=.1*LU, tol_oe=[1e-3*LU]+[1e-3]*4, oe_max=[1e2*LU, 10, 10, np.inf, np.inf, np.inf], oe_min=[.05*LU]+[-np.inf]*4)
    s = np.array([LU, 1, 1, 1, 1, 1]); f = 5e-8*LU/TU**2*1e-0
    p.set_problem(x0*s, xT*s[:5], 1.0, f, 1e-12, 1.0*TU, .1*TU); p.solve()
    assert f < 1e-9 and abs(p.states[-1][0]-LU) > 1e-12, (f, p.states[-1][0]-LU)
    """)
bug("turns-node", "C21", [(EL, "    h = np.tan(i/2)*np.cos(raan)\n    k = np.tan(i/2)*np.sin(raan)\n    l = raan + om + ta\n    return np.array([a,f,g,h,k,l])", "    h = np.tan(i/2)*np.cos(raan)\n    k = np.tan(i/2)*np.sin(raan)\n    l = raan + om + ta\n    if raan < -np.pi:\n        l = raan + om + ta + np.pi - np.pi*np.round(raan/np.pi) % 2\n    return np.array([a,f,g,h,k,l])")],
    "", "", "")
BUGS.pop()
# C22
bug("rate-sign", "C22", [(L, "    dqdt = np.array(dqdoe) @ np.array(psi).T @ (f * u)\n".rstrip("\n"), "    dqdt = np.array(dqdoe) @ np.array(psi).T @ (f * u)\n    if abs(beta) > 1.2:\n        dqdt = dqdt*np.sin(abs(beta))".rstrip("\n"))],
    "steering within twenty degrees of the orbit normal", "the recorded rate is smaller than the rate achieved", BASE+"""
    g = pyqlaw.symbolic_qlaw_mee_with_a(); a = (1.0, 1e-3, x0, np.array([1.0, .1, .05, .5, .1]), .1, 3.0, 4.0, 2.0, .01, 1.0, 1.0, np.array([0, 0, 0, 1.0, 0]))
    r = pyqlaw.lyapunov_control_angles(g[0], *a)[5]; assert abs(abs(r)-abs(g[3](*a))) < 1e-9*abs(r)
    """)
# C23
bug("six-target", "C23", [(Q, "            self.oeT = oeT[0:5]\n", "            self.oeT = np.round(oeT[0:5], 6)\n")],
    "a six-entry target with more than six decimals", "the target is rounded", BASE+"""
    y = np.array([1.51234567891, .2, .05, .2, .1])
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, np.append(y, 0), 1.0, 1e-3, 1e-3, 1.0, .1); assert np.array_equal(p.oeT, y)
    """)
bug("battery-idle", "C23", [(Q, "            if duty and (battery_iter - self.battery_charge_discharge_rate[1]*t_step_local < self.battery_capacity[0]):\n", "            if duty and (battery_iter - self.battery_charge_discharge_rate[1]*t_step_local < self.battery_capacity[0]):\n")], "", "", "")
BUGS.pop()
bug("bounds-mee", "C05", [(Q, '            if self.elements_type=="keplerian":\n                oe_iter = elements_safety(oe_iter, self.oe_min, self.oe_max)\n', '            if self.elements_type=="keplerian" or len(self.oe_min) == 6:\n                oe_iter = elements_safety(oe_iter, self.oe_min, np.minimum(self.oe_max, 1.5*self.oe0[0]+10))\n')],
    "bounds of six entries that are never reached, with a large element", "elements are clipped within the bounds", BASE+"""
    x = np.array([1.0, .1, .3, 40.0, .1, .3])
    p = pyqlaw.QLaw(verbosity=0, elements_type="keplerian"); p.set_problem(x, np.array([1.5, .1, .3, 40.0, .1]), 1.0, 1e-3, 1e-3, 1.0, .1); p.solve()
    assert abs(p.states[-1][3]-40) < .1
    """)
