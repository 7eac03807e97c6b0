"""Planted bugs, sixth batch (written from property texts and the code)."""
import runpy, os
_5 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds5.py"))
Q, S, EL, M, I, L, C, R, T, PM, PH, BASE, KERNEL = (_5[k] for k in "Q S EL M I L C R T PM PH BASE KERNEL".split())
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("figure-reuse", "C30", [(PM, "    fig, ax = plt.subplots(1,1,figsize=figsize)\n    ax.step(np.array(self.times[0:-1])*TU, np.array(self.Qs), label=\"Q\")", "    fig, ax = plt.subplots(1,1,figsize=figsize,num=\"Quotient history\",clear=True)\n    ax.step(np.array(self.times[0:-1])*TU, np.array(self.Qs), label=\"Q\")")],
    "two quotient plots open at the same time", "the first figure is emptied and shows the second run", BASE+"""
    import matplotlib.pyplot as plt
    a, b = mk(), mk(a=1.2); a.solve(); b.solve()
    f, ax = a.plot_Q(); g, bx = b.plot_Q()
    assert f is not g and np.allclose(ax.get_lines()[0].get_ydata(), a.Qs)
    """)
bug("interp-memo", "C30", [(Q, "        # prepare states matrix\n", "        # interpolants are kept for repeated queries of the same run\n        if getattr(self, \"_interp\", None) is not None and self._interp[0] is self.states:\n            return self._interp[1]\n        # prepare states matrix\n"),
    (Q, "        return (f_a, f_e, f_i, f_r, f_o, f_t)\n", "        self._interp = (self.states, (f_a, f_e, f_i, f_r, f_o, f_t))\n        return self._interp[1]\n")],
    "asking for interpolants of two kinds in the same run", "interpolants are of the kind asked for first", BASE+"""
    p = mk(); p.solve(); a = p.interpolate_states(kind="linear"); b = p.interpolate_states(kind="quadratic")
    assert abs(a[1](.3)-b[1](.3)) > 1e-9
    """)
bug("summary-first", "C24", [(Q, "        print(f\"Transfer:\")\n        print(f\"  {self.element_names[0]}  : {self.oe0[0]:1.4e}", "        print(f\"Transfer:\")\n        oe0 = self.states[0] if getattr(self, \"states\", None) else self.oe0\n        print(f\"  {self.element_names[0]}  : {oe0[0]:1.4e}")]+
    [(Q, "        print(f\"  {self.element_names[%d]}  : {self.oe0[%d]:1.4e}" % (j, j), "        print(f\"  {self.element_names[%d]}  : {oe0[%d]:1.4e}" % (j, j)) for j in range(1, 5)],
    "a second problem posed after a run, and its summary printed before it is solved", "the summary shows the initial elements of the earlier problem", BASE+"""
    p = mk(); p.solve(); x = x0.copy(); x[0] = 1.3
    p.set_problem(x, xT, 1.0, 1e-2, 1e-3, 1.1, .2)
    assert "1.3000e+00 ->" in cap(p.pretty), cap(p.pretty)
    """)
bug("mass-floor", "C04", [(Q, "            accel_thrust = self.tmax/mass_iter\n", "            accel_thrust = self.tmax/max(mass_iter, 0.25*self.mass0)    # dry mass\n")],
    "a run that burns more than three quarters of the initial mass", "thrust acceleration stops growing", BASE+"""
    p = pyqlaw.QLaw(verbosity=0); p.set_problem(x0, xT, 1.0, 1e-4, .5, 1.7, .2, woe=[1, 0, 0, 0, 0]); p.solve()
    q = pyqlaw.QLaw(verbosity=0); q.set_problem(np.array(p.states[-2]), xT, p.masses[-2], 1e-4, .5, .1, .2, woe=[1, 0, 0, 0, 0]); q.solve()
    assert p.masses[-2] < .25 and abs(p.Qs[-1]/q.Qs[0]-1) < 1e-9, (p.masses, p.Qs[-1], q.Qs[0])
    """)
bug("kep-ecc-guard", "C15", [(M, "    sma,ecc,inc,ra,om,ta = state\n", "    sma,ecc,inc,ra,om,ta = state\n    ecc_ta = max(ecc, 5e-3)      # avoid singularity of circular orbits\n"), (M, "        [p*np.cos(ta) / ( ecc*h ), - (p+r)*np.sin(ta) / ( ecc*h ), 0.0],\n", "        [p*np.cos(ta) / ( ecc_ta*h ), - (p+r)*np.sin(ta) / ( ecc_ta*h ), 0.0],\n")],
    "Keplerian elements with an eccentricity below 5e-3", "the anomaly rate under thrust is too small", """
    x = np.array([1.0, 2e-3, .4, .5, .6, .3]); z = np.zeros(6)
    d = [pyqlaw.eom_kep_gauss(0.0, x, (1.0, np.array([u, 0, 0]), z, z, z, np.zeros(3)))[5] for u in (0.0, 1e-3)]
    p = 1-4e-6; h = np.sqrt(p)
    assert abs((d[1]-d[0])-1e-3*p*np.cos(.3)/(2e-3*h)) < 1e-6, d
    """)
bug("growth-clamp", "C14", [(I, "    h_next = h*0.84*(tol/error)**(1/4)\n", "    h_next = h*0.84*min((tol/error)**(1/4), 25.0)\n")],
    "an error far below the tolerance (ratio beyond 4e5)", "the suggestion no longer scales with the fourth root", """
    f = pyqlaw.rkf45 if hasattr(pyqlaw, "rkf45") else __import__("pyqlaw._integrate").rkf45
    import numba
    @numba.njit
    def rhs(t, y, p): return -y
    a = pyqlaw.rkf45(rhs, 0.0, .1, np.array([1.0, 2.0]), 0.0, 1e-3)[1]; b = pyqlaw.rkf45(rhs, 0.0, .1, np.array([1.0, 2.0]), 0.0, 1e3)[1]
    assert abs(b/a-1e6**.25) < 1e-6, (a, b)
    """)
bug("light-time", "C16", [(R, "            pos3_km,_ = spice.spkpos(ID, et, self.frame_qlaw, \"NONE\", self.obs_id)\n", "            pos3_km,_ = spice.spkpos(ID, et, self.frame_qlaw, \"LT\" if ID == \"10\" else \"NONE\", self.obs_id)\n")],
    "a Sun that moves fast as seen from the central body", "the Sun attracts from where it was minutes ago", KERNEL+"""
    g = pyqlaw.SpicePerturbations(0.0, 6378.0, 806.0, third_bodies_names=["10"], use_J2=False, use_SRP=False)
    x = np.array([30.0, .1, .3, .4, .5, .6]); a = g.get_perturbations_RTN(0.0, x, "keplerian")
    rv = pyqlaw.kep2sv(x, g.obs_mu); s = spice.spkpos("10", 0.0, "J2000", "NONE", "399")[0]/6378.0
    from pyqlaw._perturbations import pxformECI2RTN
    w = pxformECI2RTN(rv[:3], rv[3:]) @ (-g.third_bodies_gms[0]*((rv[:3]-s)/np.linalg.norm(rv[:3]-s)**3 + s/np.linalg.norm(s)**3))
    assert np.allclose(a, w, rtol=1e-7, atol=0), (a, w)
    """)
bug("oe0-seven", "C20", [(Q, "        assert len(oe0)==6, \"oe6 must have 6 components\"\n", "        assert len(oe0) >= 6, \"oe6 must have 6 components\"\n        oe0 = oe0[0:6]\n")],
    "an initial state of seven entries (for example with the mass appended)", "it is silently accepted", BASE+"""
    p = pyqlaw.QLaw(verbosity=0)
    try: p.set_problem(np.append(x0, 1.0), xT, 1.0, 1e-2, 1e-3, 1.1, .2)
    except AssertionError: print("ok")
    else: raise SystemExit(1)
    """)
bug("conc-grid", "C27", [(Q, "class QLaw:\n", "_oe_test = np.zeros(6)      # working storage of the effectivity grid\n\n\nclass QLaw:\n"), (Q, "            oe_test = np.array([oe[0], oe[1], oe[2], oe[3], oe[4], anomaly])\n", "            oe_test = _oe_test\n            oe_test[0:5] = oe[0:5]\n            oe_test[5] = anomaly\n")],
    "two objects run in threads, switched between filling and using the storage", "the effectivities of one run are those of the other's orbit", BASE+"""
    import sys, threading
    # switch threads at the line that uses the storage
    a, b = mk(), mk(a=3.0); a.solve(.1, .1); ref = np.array(a.etas); a = mk()
    n = [0]
    def tr(fr, ev, arg):
        if fr.f_code.co_name == "evaluate_osculating_qdot" and ev == "line" and "anomaly" in fr.f_locals and "oe_test" in fr.f_locals:
            n[0] += 1
            if n[0] == 4:
                t = threading.Thread(target=lambda: b.solve(.1, .1)); t.start(); t.join()
        return tr
    for k in range(1, 12):
        n[0] = 4-k; a = mk(); sys.settrace(tr); a.solve(.1, .1); sys.settrace(None)
        assert np.array_equal(np.array(a.etas), ref), k
    """)
bug("late-bounds", "C29", [(Q, "        # number of times to accept nan angles\n", "        if self.elements_type == \"keplerian\":\n            lo, hi = self.oe_min, self.oe_max\n            self._safety = lambda oe: elements_safety(oe, lo, hi)\n\n        # number of times to accept nan angles\n"), (Q, "                oe_iter = elements_safety(oe_iter, self.oe_min, self.oe_max)\n", "                oe_iter = self._safety(oe_iter)\n")],
    "element bounds assigned after construction on a Keplerian object", "the old bounds stay in force", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, elements_type="keplerian"); p.oe_max = np.array([1.05, .9, 3.0, 9., 9., 9.])
    p.set_problem(np.array([1.2, .1, .4, .5, .6, .3]), np.array([1.5, .2, .5, .6, .7]), 1.0, 1e-4, 1e-5, .3, .1); p.solve()
    assert p.states[1][0] < 1.06, p.states
    """)
bug("duty-on-zero", "C09", [(Q, "            if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):\n", "            if (self.duty_cycle[0] > 0) and (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):\n")],
    "an ON time of zero", "the engine is never switched off although it may run one step at a time", BASE+"""
    p = mk(); p.duty_cycle = (0.0, .3); p.solve()
    assert [c[2] for c in p.controls][:3] == [1, 0, 0], p.controls
    """)
bug("charge-nominal", "C10", [(Q, "                battery_iter = np.clip(battery_iter+self.battery_charge_discharge_rate[0]*t_step_taken,\n", "                battery_iter = np.clip(battery_iter+self.battery_charge_discharge_rate[0]*(self.t_step if not self.use_sundman or self.t_step > 1.0 else t_step_taken),\n")],
    "a battery that charges while angle steps of more than a radian are taken", "the charge is that of an angle, not of the step's duration", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, use_sundman=True); x = x0.copy(); x[0] = 2.0
    p.set_problem(x, xT, 1.0, 1e-4, 1e-5, 9.0, 1.2, battery_initial=.2, battery_capacity=(.2, 10.0), battery_charge_discharge_rate=(.1, .1)); p.solve()
    assert abs((p.battery[1]-p.battery[0]) - .1*p.times[1]) < 1e-12, (p.battery[:2], p.times[:2])
    """)
bug("sundman-turns", "C11", [(Q, "                t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period\n", "                t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period\n                if abs(self.t_step) > 2*np.pi:\n                    t_step_local = np.sign(self.t_step) * (abs(t_step_local) % period)\n")],
    "angle steps of more than a full turn", "whole turns are dropped from the step", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, use_sundman=True); p.set_problem(x0, xT, 1.0, 1e-9, 1e-9, 20.0, 7.0); p.solve()
    assert p.times[1] > 6.0, p.times
    """)
bug("json-round", "C18", [(Q, "        elif isinstance(obj, np.floating):\n            return float(obj)\n        elif isinstance(obj, np.ndarray):\n            return obj.tolist()\n", "        elif isinstance(obj, np.floating):\n            return float(obj)\n        elif isinstance(obj, np.ndarray):\n            return np.round(obj, 12).tolist()\n")],
    "reading the controls of an exported file back to full precision", "numbers in the file are rounded", BASE+"""
    import json, tempfile
    p = mk(); p.solve(); f = tempfile.mktemp(); d = p.save_to_dict(f); e = json.load(open(f)); os.remove(f)
    assert np.array_equal(np.array(e["controls"]), d["controls"])
    """)
bug("nan-zero", "C01", [(Q, "                    if n_nan_angles > self.nan_angles_threshold:\n", "                    if self.nan_angles_threshold and n_nan_angles > self.nan_angles_threshold:\n")],
    "a threshold of zero undefined angles", "undefined angles never end the run", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, nan_angles_threshold=0); x = x0.copy(); t = x0[:5].copy()
    p.set_problem(x, t, 1.0, 1e-2, 1e-3, 1.1, .2); p.tol_oe = -np.ones(5); p.tol_oe_relaxed = -np.ones(5); p.solve()
    assert p.exitcode == -3, (p.exitcode, p.controls)
    """)
bug("coast-psi-keep", "C05", [(Q, "                oe_next = rk4(\n                    self.eom, \n                    t_iter,\n                    t_step_local,\n                    oe_iter,\n                    ode_params,\n                )\n", "                oe_next = rk4(\n                    self.eom, \n                    t_iter,\n                    t_step_local,\n                    oe_iter,\n                    ode_params,\n                )\n                if throttle == 0 and self.perturbations is None:\n                    oe_next[0:5] = oe_iter[0:5]\n                    oe_next[5] = oe_iter[5] + (oe_next[5] - oe_iter[5])*(1 if abs(t_step_local) < 1.0 else 0.98)\n")],
    "coast steps longer than one time unit", "the anomaly falls behind on long coasts", BASE+"""
    p = pyqlaw.QLaw(verbosity=0, mu=1e-4); p.set_problem(x0, xT, 1.0, 1e-9, 0.0, 5.0, 2.0, duty_cycle=(1.0, 100.0)); p.solve()
    n = [p.states[k+1][5]-p.states[k][5] for k in range(2)]
    assert p.controls[1][2] == 0 and abs(n[1]/n[0]-1) < 1e-2, n
    """)
