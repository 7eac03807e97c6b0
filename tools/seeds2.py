"""Planted bugs, second batch (written from property texts and the code)."""
Q = "pyqlaw/_qlaw.py"; S = "pyqlaw/_symbolic.py"; EL = "pyqlaw/_elements.py"; M = "pyqlaw/_eom.py"; I = "pyqlaw/_integrate.py"
L = "pyqlaw/_lyapunov.py"; C = "pyqlaw/_convergence.py"; R = "pyqlaw/_perturbations.py"; T = "pyqlaw/_transformations.py"; PM = "pyqlaw/_plot_methods.py"; PH = "pyqlaw/_plot_helper.py"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("mass-first", "C01", [(Q, """            # check relaxed condition
            if self""", """            # check if mass is below threshold
            if mass_iter <= self.mass_min:
                if self.verbosity > 0:
                    print("Breaking as mass is now under mass_min")
                self.exitcode = -1
                break

            # check relaxed condition
            if self"""), (Q, """            # check if mass is below threshold
            if mass_iter <= self.mass_min:
                if self.verbosity > 0:
                    print("Breaking as mass is now under mass_min")
                self.exitcode = -1
                break

            # index update""", "            # index update")],
    "the step on which the relaxed tolerance is met often enough also empties the tanks", "a transfer that arrived within the relaxed tolerance is reported as out of propellant", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0, tol_oe=[1e-9]*5, relaxed_tol_factor=1e6, exit_at_relaxed=1)
    p.set_problem(x0, np.array([1.0005, .1, .05, .2, .1]), 1.0, 1e-3, 1.0, 5.0, .25, woe=[1, 0, 0, 0, 0], mass_min=.8)
    p.solve()
    assert p.exitcode == 2 and p.converge, (p.exitcode, p.states[-1])
    """)
bug("nan-forgiven", "C01", [(Q, "                    u = accel_thrust*np.array([\n", "                    if n_nan_angles > 0:\n                        n_nan_angles = 0    # recovered\n                    u = accel_thrust*np.array([\n")],
    "undefined steering that goes away and comes back, with a threshold of two or more", "undefined angles are no longer counted over the whole run", """
    x0 = np.array([1.0, .2, .05, .2, .1, .3])
    class P:
        def get_perturbations_RTN(self, t, oe, kind): return np.array([0.0, (1 if int(round(t/.01)) % 4 < 2 else -1)*1.0, 0.0])
    p = pyqlaw.QLaw(verbosity=0, k_petro=1e6, rpmin=.801, nan_angles_threshold=2, perturbations=P())
    p.set_problem(x0, np.array([1.6, .2, .05, .2, .1]), 1.0, 1e-9, 1e-9, 3.0, .01)
    p.solve()
    bad = [j for j, s in enumerate(p.states) if 1e6*(1-s[0]*(1-np.hypot(s[1], s[2]))/.801) > 710]
    assert p.exitcode == -3 and len(bad) == 3 and bad[-1] == len(p.states)-1, (p.exitcode, len(bad), len(p.states))
    """)
bug("stale-weights", "C02", [(Q, "        if woe is None:\n", "        if woe is None and self.ready:\n            pass        # keep the weights of the problem\n        elif woe is None:\n")],
    "two problems on one object, the first with weights and the second without", "weights of an earlier problem are used for a later one", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3]); xT = np.array([1.5, .2, .05, .2, .1])
    def go(p): p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 1.0, .1); p.solve(); return np.array(p.controls)
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 1.0, .1, woe=[1, 0, 0, 0, 0]); p.solve()
    assert np.array_equal(go(p), go(pyqlaw.QLaw(verbosity=0)))
    """)
bug("safety-in-place", "C02", [(C, "    oe_clean = oe.copy()\n", "    oe_clean = oe\n")],
    "Keplerian elements starting outside the element bounds", "the caller's initial state array is overwritten", """
    x0 = np.array([1.0, .1, .3, -.2, .1, .3]); c = x0.copy()
    p = pyqlaw.QLaw(verbosity=0, elements_type="keplerian")
    p.set_problem(x0, np.array([1.5, .1, .3, .2, .1]), 1.0, 1e-3, 1e-3, 1.0, .1); p.solve()
    assert np.array_equal(x0, c), x0
    """)
bug("alpha-range", "C03", [(L, "    alpha = np.arctan2(-u[0],-u[1])\n", "    alpha = np.arctan2(-u[0],-u[1])\n    if alpha < -0.5*np.pi:\n        alpha += 2*np.pi\n")],
    "thrust inwards and against the motion", "the in-plane angle leaves [-pi, pi]", """
    x0 = np.array([1.0, .3, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([.7, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 7.0, .05)
    p.solve()
    a = np.array(p.controls)[:, 0]
    assert np.all(np.abs(a) <= np.pi+1e-12), (a.min(), a.max())
    """)
bug("dry-tank", "C04", [(Q, """                if throttle == 1:
                    mass_iter -= self.mdot*t_step_local  # update mass
                oe_iter = oe_next

            elif""", """                if throttle == 1:
                    mass_iter = max(mass_iter - self.mdot*t_step_local, self.mass_min)  # update mass
                oe_iter = oe_next

            elif""")],
    "the last step of a run that empties the tanks", "the last step costs less propellant than the engine burns", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0)
    p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, .3, 20.0, .25, mass_min=.8)
    p.solve()
    assert np.allclose(np.diff(p.masses), -.075), p.masses
    """)
bug("old-mass", "C04", [(Q, "            accel_thrust = self.tmax/mass_iter\n", "            accel_thrust = self.tmax/(mass_iter if self.perturbations is None else self.masses[max(len(self.masses)-2, 0)])\n")],
    "mass flow together with a perturbation model", "thrust acceleration belongs to the mass one step earlier", """
    class Z:
        def get_perturbations_RTN(self, *a): return np.zeros(3)
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    def go(P):
        p = pyqlaw.QLaw(verbosity=0, perturbations=P); p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-2, .1, 1.0, .25); p.solve(); return np.array(p.states)
    assert np.allclose(go(Z()), go(None), atol=1e-12)
    """)
bug("coast-unperturbed", "C05", [(Q, "            if self.perturbations is not None:\n                ptrb", "            if self.perturbations is not None and (duty or not self.use_sundman):\n                ptrb")],
    "angle stepping with the engine unavailable and a perturbation model", "perturbations are dropped on coast arcs", """
    class Z:
        def get_perturbations_RTN(self, *a): return np.array([0, .01, 0])
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0, perturbations=Z(), use_sundman=True); p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-9, 1e-9, 1.0, .1, duty_cycle=(0.2, 1e9)); p.solve()
    a = np.array(p.states)[:, 0]
    assert np.all(np.diff(a) > 5e-4), np.diff(a)
    """)
bug("kep-ta-rate", "C05", [(M, "        [p*np.cos(ta) / ( ecc*h ), - (p+r)*np.sin(ta) / ( ecc*h ), 0.0],", "        [p*np.cos(ta) / ( ecc*h ), - (p+sma)*np.sin(ta) / ( ecc*h ), 0.0],")],
    "Keplerian elements with transverse thrust away from the apses and the minor axis", "the true anomaly drifts under thrust", """
    from pyqlaw._eom import eom_kep_gauss as f
    z = np.zeros(5); x = np.array([1.0, .4, .3, .2, .3, 1.0]); w = np.array([0, .1, 0])
    d = f(0.0, x, (1.0, w, z, z, z, np.zeros(3)))[5] - f(0.0, x, (1.0, 0*w, z, z, z, np.zeros(3)))[5]
    p = 1-.16; r = p/(1+.4*np.cos(1)); h = np.sqrt(p)
    assert abs(d + .1*(p+r)*np.sin(1)/(.4*h)) < 1e-12, d
    """)
bug("small-gradient", "C06", [(L, "    u = u_float/u_float_norm\n", "    u = u_float/max(u_float_norm, 1e-9)\n")],
    "a gradient below 1e-9 in the units of the problem (high acceleration units or nearly at the target)", "the returned direction is no unit vector", """
    f = pyqlaw.lyapunov_control_angles; q = pyqlaw.symbolic_qlaw_mee_with_a()[0]
    al, be, u, psi, Q, d = f(q, 1.0, 1e4, np.array([1.0, .1, .2, .2, .1, .4]), np.array([1.01, .1, .2, .2, .1]), .1, 3.0, 4.0, 2.0, .01, 1.0, 1.0, np.ones(5))
    assert abs(np.linalg.norm(u)-1) < 1e-9, u
    """)
bug("hdot-sign", "C07", [(S, "        hdot_xx = 0.5*accel*sqrt_pmu * s_squared/(sym.sqrt(1 - g**2) + f)", "        hdot_xx = 0.5*accel*sqrt_pmu * s_squared/(sym.sqrt(1 - g**2) + sym.sqrt(f**2))")],
    "an orbit with f < 0 and a weight on h", "maximum rate of h is that of the mirrored orbit", """
    q = pyqlaw.symbolic_qlaw_mee_with_a()[0]
    x = np.array([1.0, -.3, .2, .2, .1, .4]); f = .01
    Q = q(1.0, f, x, np.array([1.0, -.3, .2, .3, .1]), .1, 3.0, 4.0, 2.0, .01, 1.0, 0.0, np.ones(5))[2]
    hd = .5*f*np.sqrt(1-.13)*(1+.05)/(np.sqrt(1-.04)-.3)
    assert abs(Q/(.1/hd)**2-1) < 1e-9, Q
    """)
bug("b-petro", "C07", [(S, "        omdot   = (omdot_i + b_petro*omdot_o)/(1+b_petro)\n", "        omdot   = (omdot_i + b_petro*omdot_o)/1.01\n")],
    "Keplerian periapsis weight with a b parameter other than its default", "the b parameter no longer normalises the maximum rate", """
    q = pyqlaw.symbolic_qlaw_keplerian()[0]
    x = np.array([1.0, .3, .5, .2, .1, .4])
    Q = [q(1.0, .01, x, np.array([1.0, .3, .5, .2, .4]), .1, 3.0, 4.0, 2.0, b, 1.0, 0.0, np.array([0, 0, 0, 0, 1.0]))[2] for b in (0.0, .5, 1e9)]
    i, m, o = [.3/np.sqrt(v) for v in Q]
    assert abs(m - (i+.5*o)/1.5) < 1e-9*m and np.isfinite(o), (i, m, o)
    """)
bug("both-thresholds", "C08", [(Q, "                    if eta_r_current > 0 or eta_a_current > 0:\n", "                    if eta_r_current > 0 or eta_a_current > 1e-3:\n")],
    "an absolute threshold below 0.001 and no relative one", "effectivities are not evaluated", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 1.0, .25); p.solve(5e-4, 0.0)
    assert np.all(np.isfinite(p.etas)), p.etas
    """)
bug("grid-fixed", "C08", [(Q, "            oe_test = np.array([oe[0], oe[1], oe[2], oe[3], oe[4], anomaly])\n", "            oe_test = np.array([oe[0], oe[1], oe[2], oe[3], oe[4], anomaly - oe[5] % 0.5])\n")],
    "effectivity thresholds", "the grid does not contain the current anomaly: effectivities above one", """
    x0 = np.array([1.0, .3, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 7.0, .1); p.solve(.01, .01)
    assert np.all(np.array(p.etas) <= 1+1e-9), np.max(p.etas)
    """)
bug("duty-backward", "C09", [(Q, "            if (abs(t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):", "            if (t_iter - t_last_OFF > self.duty_cycle[1]) and (duty is False):")],
    "a duty cycle in backward time", "once off, the engine stays off", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, -5.0, -.1, duty_cycle=(.95, .45)); p.solve()
    assert sum(c[2] for c in p.controls) > 20, [c[2] for c in p.controls]
    """)
bug("duty-drift", "C09", [(Q, "                duty = False            # turn off duty cycle\n                t_last_OFF = t_iter", "                duty = False            # turn off duty cycle\n                t_last_OFF = t_last_ON + self.duty_cycle[0]")],
    "an ON time that is no multiple of the step", "OFF phases are shorter than configured", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 9.0, .5, duty_cycle=(1.2, .7)); p.solve()
    got = [c[2] for c in p.controls]; want = []; on = True; tl = 0.0
    for t in p.times[:-1]:
        if abs(t-tl) > (1.2 if on else .7): on = not on; tl = t
        want.append(int(on))
    assert got == want, (got, want)
    """)
bug("min-margin", "C10", [(Q, "            if battery_iter <= self.battery_capacity[0] + 1e-12:\n", "            if battery_iter <= self.battery_capacity[0] + 1e-3:\n")],
    "a step that starts less than 0.001 above the minimum level", "the engine is refused although energy is left", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 5.0, .25, battery_initial=.5007, battery_capacity=(.2, 1.0), battery_charge_discharge_rate=(.1, .4)); p.solve()
    b = np.array(p.battery); j = [n for n in range(len(b)-1) if .2+1e-12 < b[n] < .201]
    assert j and all(b[n+1] < b[n] for n in j), b[:10]
    """)
bug("drain-coasting", "C10", [(Q, "            if duty and (battery_iter - self", "            if duty and throttle_allowed and (battery_iter - self"), (Q, "            # overwrite time-step to time until we hit bottom", "            throttle_allowed = not (len(self.controls) > 0 and self.controls[-1][2] == 0 and self.battery[-1] < self.battery[-2])\n            # overwrite time-step to time until we hit bottom")],
    "a battery that runs out in a step following one coasted for lack of effectivity", "such a step is not shortened and draws more than is left", """
    x0 = np.array([1.0, .3, .05, .2, .1, .3])
    n = [0]
    def eta(t, oe, m, b): n[0] += 1; return 2.0 if n[0] == 3 else 0.0
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 5.0, .25, battery_initial=.53, battery_capacity=(.2, 1.0), battery_charge_discharge_rate=(.1, .4)); p.solve(eta, 0.0)
    b = np.array(p.battery); t = np.array(p.times); f = np.diff(b) < 0
    assert np.allclose(np.diff(b)[f], -.4*np.diff(t)[f]), np.diff(b)[f]/np.diff(t)[f]
    """)
bug("kep-anomaly", "C11", [(EL, "    ea = 2*np.arctan(np.sqrt((1-ecc)/(1+ecc))*np.tan(ta/2))\n", "    ea = np.arctan(np.sqrt(1-ecc**2)*np.sin(ta)/(ecc+np.cos(ta)))\n")],
    "a phase beyond the minor axis (eccentric anomaly beyond a quarter turn)", "steps there last as long as those on the other side of the orbit", """
    x0 = np.array([1.0, .4, .3, .2, .1, 2.6]); E = pyqlaw.ta2ea(2.6, .4)
    E0 = 2*np.arctan2(np.sqrt(.6)*np.sin(1.3), np.sqrt(1.4)*np.cos(1.3))
    assert abs(E-E0) < 1e-12, (E, E0)
    """)
bug("sundman-ecc", "C11", [(Q, "                M1 = E1 - ecc_iter*np.sin(E1)\n", "                M1 = E1 - min(ecc_iter, 0.8)*np.sin(E1)\n")],
    "angle stepping on an orbit with an eccentricity above 0.8", "steps are too long or too short", """
    x0 = np.array([1.0, .9, 0, .2, .1, 0.0])
    p = pyqlaw.QLaw(verbosity=0, use_sundman=True); p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-12, 1e-12, .1, 2*np.pi/50, duty_cycle=(0., 1e9)); p.solve()
    E = 2*np.pi/50
    assert abs(p.times[1] - (E-.9*np.sin(E))) < 1e-9, p.times
    """)
bug("omega-planar", "C12", [(EL, "    if np.abs(la.norm(ndir)*la.norm(ecc)) >= 1e-12:", "    if np.abs(la.norm(ndir)*la.norm(ecc)) >= 1e-4:")],
    "a slightly inclined, slightly eccentric orbit", "the argument of periapsis is measured from the x-axis instead of the node", """
    k = np.array([1.0, .01, .008, 1.0, .5, .3])
    s = pyqlaw.kep2sv(k, 1.0); assert np.allclose(pyqlaw.kep2sv(pyqlaw.sv2kep(s, 1.0), 1.0), s, atol=1e-10)
    """)
bug("raan-negative", "C12", [(EL, "    if (raan != 0.0):", "    if (raan > -0.5*np.pi and raan != 0.0):")],
    "a node angle below -90 degrees", "the orbit is not rotated to its node", """
    s = pyqlaw.kep2sv(np.array([1.0, .1, .3, -2.0, .5, .3]), 1.0); t = pyqlaw.kep2sv(np.array([1.0, .1, .3, 2*np.pi-2.0, .5, .3]), 1.0)
    assert np.allclose(s, t, atol=1e-12), (s, t)
    """)
bug("wrap-fmod", "C13", [(T, "	return (alpha + np.pi) % (2.0 * np.pi) - np.pi", "	return np.fmod(alpha + np.pi, 2.0 * np.pi) - np.pi")],
    "an angle below -pi", "wrapped angles below -pi", """
    from pyqlaw._transformations import wrap
    a = np.linspace(-20, 20, 101); assert np.all(np.abs(wrap(a)) <= np.pi+1e-12), wrap(a)
    """)
bug("rot2", "C13", [(T, "	return np.array([ [np.cos(phi), 0.0, -np.sin(phi)],\n					  [0.0, 1.0, 0.0],\n					  [np.sin(phi), 0.0, np.cos(phi)] ])", "	return np.array([ [np.cos(phi), 0.0, np.sin(phi)],\n					  [0.0, 1.0, 0.0],\n					  [-np.sin(phi), 0.0, np.cos(phi)] ])")],
    "the second elementary rotation", "rotates the vector instead of the frame", """
    from pyqlaw._transformations import rotmat1, rotmat2, rotmat3
    P = np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0.]])        # x -> y -> z -> x
    assert np.allclose(P @ rotmat3(.3) @ P.T, rotmat2(.3)) or np.allclose(P.T @ rotmat3(.3) @ P, rotmat2(.3))
    """)
bug("rkf-coefficient", "C14", [(I, "    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*k1 - 7200/2197*k2 + 7296/2197*k3, p)", "    k4 = h * rhs(t + 11/12 * h, y + 1932/2197*k1 - 7200/2197*k2 + 7296/2197*k3, p)")],
    "a right-hand side that depends on time", "one stage of the Fehlberg method is evaluated at the wrong time", """
    from numba import njit
    @njit
    def f(t, y, p): return np.array([np.cos(3*t)*y[0]])
    e = []
    for h in (.2, .1): e.append(abs(pyqlaw.rkf45(f, .3, h, np.array([1.0]), 0.0)[0][0] - np.exp((np.sin(3*(.3+h))-np.sin(.9))/3)))
    assert e[0] < 2e-5 and e[0]/e[1] > 20, e
    """)
bug("rkf-error-norm", "C14", [(I, "    error = max(np.linalg.norm(z_next - y_next), 1e-16)", "    error = max(abs(np.sum(z_next - y_next)), 1e-16)")],
    "a system whose components have local errors of opposite sign", "the step suggestion grows although the error does", """
    from numba import njit
    @njit
    def f(t, y, p): return np.array([np.cos(3*t), -np.cos(3*t)])
    s = [pyqlaw.rkf45(f, .3, h, np.array([1.0, 1.0]), 0.0, 1e-6)[1]/h for h in (.4, .2)]
    assert max(s) < 50, s
    """)
bug("eom-mu", "C15", [(M, "    ang_mom = np.sqrt(sma*mu*(1-ecc**2))\n    ta = l - np.arctan2(g, f)\n    r = ang_mom**2/(mu*(1+ecc*np.cos(ta)))\n    p = sma*(1 - ecc**2)\n\n    # Gauss perturbation\n    sinL = np.sin(l)\n    cosL = np.cos(l)\n    w = 1 + f*cosL + g*sinL\n    sqrt_pmu = np.sqrt(p/mu)", "    ang_mom = np.sqrt(sma*mu*(1-ecc**2))\n    ta = l - np.arctan2(g, f)\n    r = ang_mom**2/(mu*(1+ecc*np.cos(ta)))\n    p = sma*(1 - ecc**2)\n\n    # Gauss perturbation\n    sinL = np.sin(l)\n    cosL = np.cos(l)\n    w = 1 + f*cosL + g*sinL\n    sqrt_pmu = np.sqrt(p)/mu")],
    "a gravitational parameter other than one and normal acceleration", "the true longitude drifts at the wrong rate", """
    from pyqlaw._eom import eom_mee_with_a_gauss as f
    z = np.zeros(5); x = np.array([1.0, .1, .0, .2, .3, .4]); w = np.array([0, 0, .1])
    d = f(0.0, x, (4.0, w, z, z, z, np.zeros(3)))[5] - f(0.0, x, (4.0, 0*w, z, z, z, np.zeros(3)))[5]
    assert abs(d - .1*np.sqrt(.99/4)/(1+.1*np.cos(.4))*(.2*np.sin(.4)-.3*np.cos(.4))) < 1e-12, d
    """)
SP = """
    import tempfile, os, spiceypy as spice
    d = tempfile.mkdtemp(); k = os.path.join(d, "k.bsp")
    h = spice.spkopn(k, "x", 0); t = np.linspace(-1e6, 1e6, 201)
    def put(b, c, p, v): spice.spkw08(h, b, c, "J2000", t[0], t[-1], "b", 3, len(t), np.array([np.concatenate((np.array(p)+s*np.array(v), v)) for s in t]), t[0], t[1]-t[0])
    put(399, 0, [1.4e8, 2e7, 1e6], [-3., 28., 1.]); put(499, 0, [-1e8, 1.7e8, 6e6], [-18., -9., .3]); put(10, 0, [3e5, -5e5, 0], [.01, .0, 0.]); put(301, 0, [1.4e8+3e5, 2e7+2e5, 1e6], [-3., 29., 1.])
    spice.spkcls(h); spice.furnsh(k)
    for b, g in (("399", 398600.4), ("499", 42828.4), ("10", 1.327e11), ("301", 4902.8)): spice.pdpool("BODY%s_GM" % b, [g])
    os.remove(k); os.rmdir(d)
"""
bug("sun-observer", "C16", [(R, """            pos_sun_km,_ = spice.spkpos("10", et, self.frame_qlaw, "NONE", self.obs_id)""", """            pos_sun_km,_ = spice.spkpos("10", et, self.frame_qlaw, "NONE", "399")""")],
    "an orbit about another body than the Earth with radiation pressure", "radiation pressure points away from the Sun as seen from the Earth", SP + """
    p = pyqlaw.SpicePerturbations(0.0, 3396.0, 945.0, obs_id="499", third_bodies_names=None, use_J2=False)
    x = np.array([2.0, .1, .3, .4, .5, .6]); a = p.get_perturbations_RTN(0.0, x, "keplerian")
    rv = pyqlaw.kep2sv(x, p.obs_mu); s = spice.spkpos("10", 0.0, "J2000", "NONE", "499")[0]/3396.0
    v = pyqlaw.pxformECI2RTN(rv[:3], rv[3:]) @ (rv[:3]-s)
    assert np.dot(a, v) > (1-1e-12)*np.linalg.norm(a)*np.linalg.norm(v), (a, v)
    """)
bug("ephemeris-cache", "C16", [(R, "        for mu3,ID in zip(self.third_bodies_gms, self.third_bodies_names):\n            pos3_km,_ = spice.spkpos(ID, et, self.frame_qlaw, \"NONE\", self.obs_id)\n", "        if not hasattr(self, \"_cache\") or abs(self._cache[0] - et) > 60.0:\n            self._cache = (et, [spice.spkpos(ID, et, self.frame_qlaw, \"NONE\", self.obs_id)[0] for ID in self.third_bodies_names])\n        for mu3,pos3_km in zip(self.third_bodies_gms, self._cache[1]):\n")],
    "two queries less than a minute apart", "third bodies are where they were at the earlier query", SP + """
    def P(): return pyqlaw.SpicePerturbations(0.0, 6378.0, 806.8, third_bodies_names=["301"], use_J2=False, use_SRP=False)
    x = np.array([40.0, .1, .3, .4, .5, .6]); p = P(); p.get_perturbations_RTN(0.0, x, "keplerian"); a = p.get_perturbations_RTN(.07, x, "keplerian"); b = P().get_perturbations_RTN(.07, x, "keplerian")
    assert np.array_equal(a, b), (a, b)
    """)
bug("clip-anomaly", "C17", [(C, "    for idx in range(5):\n", "    for idx in range(min(len(oe), len(oe_min), len(oe_max))):\n")],
    "bounds with six entries and an anomaly outside the last ones", "the anomaly is clipped", """
    y = pyqlaw.elements_safety(np.array([1., .1, .2, .3, .4, -2.0]), np.array([.05, 0, 0, 0, 0, 1e-8]), np.array([9., 1, 3, 7, 7, 9.]))
    assert y[5] == -2.0, y
    """)
bug("small-weights", "C17", [(C, "    doe = np.abs(oeT[0:5] - oe[0:5])\n    for idx in range(len(tol_oe)):\n        if woe[idx] == 0.0:", "    doe = np.abs(oeT[0:5] - oe[0:5])\n    for idx in range(len(tol_oe)):\n        if woe[idx] < 1e-4*np.max(woe):")],
    "equinoctial elements with weights of very different size", "elements with small weights are ignored", """
    assert not pyqlaw.check_convergence_mee(np.array([1., .1, .2, .3, .9, 0]), np.array([1., .1, .2, .3, .4]), np.array([1e5, 1, 1, 1, 1.]), np.full(5, 1e-3))
    """)
bug("export-alias", "C18", [(Q, "        _controls = copy.deepcopy(self.controls)\n", "        _controls = copy.copy(self.controls)\n        _controls[-1:] = [c if c[2] else [0.0, 0.0, 0] for c in _controls[-1:]]\n")],
    "exporting the angles of a run whose last step coasts for lack of effectivity", "the angles of the last step are lost", """
    x0 = np.array([1.0, .3, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 1.0, .1); p.solve(2.0, 0.0)
    d = p.save_to_dict(None, save_control_angles=True)
    assert np.array_equal(d["controls"][:-1], np.array(p.controls)), d["controls"][-2:]
    """)
bug("cartesian-mu", "C18", [(Q, "                    cart[:,idx] = mee_with_a2sv(np.array([f_a(t), f_e(t), f_i(t), f_r(t), f_o(t), f_t(t)]), self.mu)", "                    cart[:,idx] = mee_with_a2sv(np.array([f_a(t), f_e(t), f_i(t), f_r(t), f_o(t), f_t(t)]), 1.0)")],
    "interpolated history of a problem with a gravitational parameter other than one", "interpolated velocities are wrong", """
    x0 = np.array([1.0, .3, .05, .2, .1, .3])
    p = pyqlaw.QLaw(verbosity=0, mu=2.0); p.set_problem(x0, np.array([1.5, .1, .05, .2, .1]), 1.0, 1e-3, 1e-3, 1.0, .1); p.solve()
    assert np.allclose(p.get_cartesian_history(True, 7)[:, 0], p.get_cartesian_history()[:, 0], atol=1e-9)
    """)
bug("equal-axis", "C19", [(PH, "    mid_z = (max(zlims) + min(zlims)) * 0.5\n", "    mid_z = max(zlims) - max_range\n")],
    "a z-range that is not the largest", "the z-axis is not centred on its range and cuts it off for scales below one", """
    import matplotlib; matplotlib.use("Agg"); import matplotlib.pyplot as plt
    ax = plt.figure().add_subplot(projection="3d"); pyqlaw.set_equal_axis(ax, [-5, 5], [-1, 2], [0, 1])
    assert abs(sum(ax.get_zlim())/2-.5) < 1e-9, ax.get_zlim()
    """)
bug("kep-target-orbit", "C19", [(PM, "        coord_orb0 = get_orbit_coordinates(self.oe0, self.mu)\n        coord_orbT = get_orbit_coordinates(np.concatenate((self.oeT,[0.0])), self.mu)\n    elif self.elements_type == \"mee_with_a\":\n        coord_orb0 = get_orbit_coordinates(mee_with_a2kep(self.oe0), self.mu)\n        coord_orbT = get_orbit_coordinates(\n            mee_with_a2kep(np.concatenate((self.oeT, [0.0]))), ", "        coord_orb0 = get_orbit_coordinates(self.oe0, self.mu)\n        coord_orbT = get_orbit_coordinates(np.concatenate((self.oeT,[0.0])), self.mu)\n    elif self.elements_type == \"mee_with_a\":\n        coord_orb0 = get_orbit_coordinates(mee_with_a2kep(np.array(self.states[0])), self.mu)\n        coord_orbT = get_orbit_coordinates(\n            mee_with_a2kep(self.states[-1] if self.converge else np.concatenate((self.oeT, [0.0]))), ")],
    "three-dimensional plot of a converged transfer with loose tolerances", "the reached orbit is drawn instead of the target", """
    import matplotlib; matplotlib.use("Agg")
    x0 = np.array([1.0, .3, .05, .2, .1, .3]); xT = np.array([1.2, .2, .05, .2, .1])
    p = pyqlaw.QLaw(verbosity=0, tol_oe=[.3]*5); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 1.0, .1); p.solve()
    for _ in range(1): pass
    p.states.append(p.states[-1]); p.times.append(2*p.times[-1])
    fig, ax = p.plot_trajectory_3d(interpolate=False)
    L = [l for l in ax.lines if l.get_label() == "Final"][0]; d = np.array(L.get_data_3d())
    assert np.allclose(d, pyqlaw.get_orbit_coordinates(pyqlaw.mee_with_a2kep(np.append(xT, 0.)), 1.0)[:3])
    """)
bug("late-assert", "C20", [(Q, "        assert mass_min >= 1e-2, \"mass should be above 0.01 to avoid numerical difficulties\"\n", ""), (Q, "        self.mass_min = mass_min\n", "        assert mass_min >= 1e-2, \"mass should be above 0.01 to avoid numerical difficulties\"\n        self.mass_min = mass_min\n")],
    "a refused minimum mass on an object that already holds a problem", "a refused problem leaves parts of itself behind", """
    x0 = np.array([1.0, .3, .05, .2, .1, .3]); xT = np.array([1.2, .2, .05, .2, .1])
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, 1e-3, 1.0, .1)
    try: p.set_problem(x0, xT, 7.0, 1e-3, 1e-3, 2.0, .1, mass_min=0.0)
    except AssertionError: pass
    assert p.mass0 == 1.0 and p.tf_max == 1.0
    """)
bug("relaxed-list", "C20", [(Q, "        self.tol_oe_relaxed = relaxed_tol_factor*self.tol_oe  # relaxed tolerance\n", "        self.tol_oe_relaxed = int(relaxed_tol_factor)*self.tol_oe  # relaxed tolerance\n")],
    "a relaxation factor that is no integer", "the fraction of the factor is dropped", """
    assert np.allclose(pyqlaw.QLaw(verbosity=0, relaxed_tol_factor=2.5).tol_oe_relaxed, 2.5e-3)
    """)
bug("rp-units", "C21", [(S, "        penalty_rp = sym.exp(k_petro*(1.0 - rp/rpmin))\n", "        penalty_rp = sym.exp(k_petro*(1.0 - rp/rpmin)/(1 + 1e-3*rp))\n")],
    "a length unit in which the periapsis radius is large", "steering depends on the length unit", """
    def go(L):
        x0 = np.array([1.0*L, .3, .05, .2, .1, .3]); xT = np.array([1.2*L, .2, .05, .2, .1])
        p = pyqlaw.QLaw(verbosity=0, mu=L**3, rpmin=1.5*L, tol_oe=[1e-3*L]+[1e-3]*4, oe_max=[1e9]*6); p.set_problem(x0, xT, 1.0, 1e-2*L, 1e-3, 1.0, .1); p.solve(); return np.array(p.controls)
    assert np.allclose(go(1.0), go(1e3), atol=1e-6)
    """)
bug("coast-rate", "C22", [(Q, """                    fun_lyapunov_control=self.lyap_fun,
                    mu=self.mu, 
                    f=accel_thrust, 
                    oe=oe_iter, 
                    oeT=self.oeT, 
                    rpmin=self.rpmin, 
                    m_petro=self.m_petro, 
                    n_petro=self.n_petro, 
                    r_petro=self.r_petro, 
                    b_petro=self.b_petro, 
                    k_petro=self.k_petro, 
                    wp=self.wp, 
                    woe=self.woe,
                )
            
""", """                    fun_lyapunov_control=self.lyap_fun,
                    mu=self.mu, 
                    f=self.tmax/self.mass0, 
                    oe=oe_iter, 
                    oeT=self.oeT, 
                    rpmin=self.rpmin, 
                    m_petro=self.m_petro, 
                    n_petro=self.n_petro, 
                    r_petro=self.r_petro, 
                    b_petro=self.b_petro, 
                    k_petro=self.k_petro, 
                    wp=self.wp, 
                    woe=self.woe,
                )
            
""")],
    "a coast (duty cycle, battery) after propellant has been used", "the quotient recorded on coasts is that of a full spacecraft", """
    x0 = np.array([1.0, .3, .05, .2, .1, .3]); xT = np.array([1.2, .2, .05, .2, .1])
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-3, .1, 2.0, .1, duty_cycle=(.55, .35)); p.solve()
    for j in range(len(p.controls)):
        q = p.lyap_fun(1.0, 1e-3/p.masses[j], p.states[j], xT, .1, 3.0, 4.0, 2.0, .01, 1.0, 1.0, np.ones(5))[2]
        assert abs(q/p.Qs[j]-1) < 1e-9, (j, q, p.Qs[j])
    """)
bug("grid-odd", "C23", [(Q, "        self.anomaly_grid_size = anomaly_grid_size\n", "        self.anomaly_grid_size = anomaly_grid_size\n        self.exit_at_relaxed_max = max(anomaly_grid_size, 2)\n"), (Q, "                if n_relaxed_cleared >= self.exit_at_relaxed:", "                if n_relaxed_cleared >= max(self.exit_at_relaxed, 1) and (n_relaxed_cleared >= self.exit_at_relaxed_max or self.exit_at_relaxed > 1):")],
    "exit at the first relaxed hit", "the effectivity grid size decides when a run without thresholds ends", """
    x0 = np.array([1.0, .1, .05, .2, .1, .3])
    def go(n):
        p = pyqlaw.QLaw(verbosity=0, anomaly_grid_size=n, tol_oe=[1e-9]*5, relaxed_tol_factor=1e6, exit_at_relaxed=1)
        p.set_problem(x0, np.array([1.0005, .1, .05, .2, .1]), 1.0, 1e-9, 1e-9, 5.0, .25, woe=[1, 0, 0, 0, 0]); p.solve(); return len(p.times)
    assert go(5) == go(20), (go(5), go(20))
    """)
