"""Regenerates /verif/properties.jsonl (kept as a script so that the text is edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))
Q = "pyqlaw/_qlaw.py"; S = "pyqlaw/_symbolic.py"; E = "pyqlaw/_elements.py"; M = "pyqlaw/_eom.py"
I = "pyqlaw/_integrate.py"; L = "pyqlaw/_lyapunov.py"; C = "pyqlaw/_convergence.py"; R = "pyqlaw/_perturbations.py"
T = "pyqlaw/_transformations.py"; PM = "pyqlaw/_plot_methods.py"; PH = "pyqlaw/_plot_helper.py"

prop("C01", "The reported outcome of a transfer is the true one",
 "A run ends at the first step at which one of these holds, taken in this order: every weighted element of the new state is within tolerance (code 1), the relaxed tolerance has now been met by the configured number of steps in total (code 2), the mass is at or below the minimum (code -1), the time budget is used up (code -2); or at the step at which the steering angles are undefined once more often than allowed in total (code -3). "
 "The convergence flag is set exactly for codes 1 and 2, and the code always describes the run that just ended. "
 "Weights of zero exempt an element, and node and periapsis angles of Keplerian problems are compared modulo a full turn.",
 ["histories", "configurations", "inputs"],
 "every sequence of per-step outcomes (far, relaxed, converged, steering undefined; thrusting or coasting) of a run, every setting of tolerances, counters, mass budget and time budget, in both element sets, both integrators and both time directions",
 "The tests only see one converging run, one depleted run and runs whose outcome is not asserted; relaxed exits, undefined steering, coincident conditions and counters are never reached.",
 [Q, C], [("main loop exit tests and exit-code assignment", Q+":QLaw.solve"), ("tolerance tests", C+":check_convergence_keplerian, check_convergence_mee")],
 [("exitcode", "outcome of the last run", Q), ("converge", "whether the last run reached its target", Q), ("n_relaxed_cleared", "steps that met the relaxed tolerance", Q), ("n_nan_angles", "steps with undefined steering", Q)],
 ["QLaw.exitcode", "QLaw.converge", "QLaw.states", "QLaw.masses", "QLaw.times"])

prop("C02", "A run depends only on its settings and its problem, and alters no input",
 "Whatever was solved before on the same object, or on any other object, posing a problem and solving it gives the same histories, outcome code and convergence flag as on a freshly built object with the same settings. "
 "Solving, printing, plotting, exporting and helper calls never modify arrays or lists passed in by the user, and reading results never changes them.",
 ["histories"], "every sequence up to a bounded length of: pose one of several problems, solve with one of several thresholds, read results, on one or two objects",
 "Each test builds one object, solves once and drops it; reuse, interleaving and aliasing of inputs are never exercised.",
 [Q, C], [("storage re-initialised at the start of a run", Q+":QLaw.solve"), ("problem stored", Q+":QLaw.set_problem"), ("element clipping", C+":elements_safety")],
 [("times/states/masses/controls/...", "histories of the last run", Q), ("oe0, oeT", "references to the user's arrays", Q)],
 ["QLaw histories", "user arrays"])

prop("C03", "Recorded histories are complete, aligned and correctly stepped",
 "After a run with n steps there are n+1 times, states, masses and battery levels, starting with time zero and the given initial values, and n controls, effectivities, effectivity thresholds, quotients and quotient rates. "
 "Without angle stepping or battery shortening each time step equals the requested one, time moves strictly in the direction of the requested step, and a run that exhausts its time budget ends at the first recorded time whose magnitude reaches the budget. "
 "Throttle is 0 or 1, thrust angles are finite with the in-plane one in [-pi, pi] and the out-of-plane one in [-pi/2, pi/2], and every recorded state is finite as long as the orbit stays an ellipse.",
 ["configurations", "inputs"], "every combination of element set, integrator, step direction and size, angle stepping, duty cycle, battery, thresholds, perturbation and time budget from bounded menus",
 "Tests never look at the histories apart from the outcome flag.",
 [Q], [("per-step append block", Q+":QLaw.solve"), ("loop guard on elapsed time", Q+":QLaw.solve")], (), ["QLaw.times", "QLaw.states", "QLaw.masses", "QLaw.controls", "QLaw.etas", "QLaw.etas_bounds", "QLaw.Qs", "QLaw.dQdts", "QLaw.battery"])

prop("C04", "Propellant accounting is exact",
 "Over every recorded step the mass changes by exactly the mass-flow rate times the duration of that step if the engine thrusts (decreasing forward in time, increasing backward) and not at all if it coasts, whatever the cause of the coast (effectivity, duty cycle, battery, undefined steering). "
 "The thrust acceleration used in a step is the maximum thrust divided by the mass at the start of that step.",
 ["configurations", "histories"], "every thrust/coast pattern and cause of coasting up to a bounded number of steps, both integrators, element sets and directions, fixed, angle-stepped and battery-shortened steps",
 "No test checks the mass history; only one asserts that mass ran out.",
 [Q], [("mass update guarded by throttle", Q+":QLaw.solve"), ("acceleration from current mass", Q+":QLaw.solve")], [("masses", "mass history", Q)], ["QLaw.masses", "QLaw.times", "QLaw.controls", "QLaw.states"])

prop("C05", "Recorded states obey the physics under the recorded controls",
 "Each recorded state follows from the one before by two-body motion perturbed by the recorded thrust (maximum thrust over current mass along the recorded direction, in the radial/transverse/normal frame of the orbit, if the throttle is on) plus any external perturbing acceleration, with an error of second order in the step for these accelerations and of fifth order for two-body motion. "
 "A coasting unperturbed step leaves the five slow elements unchanged and advances the anomaly as Kepler's equation demands. "
 "This holds for any gravitational parameter, both element sets, both integrators, all orbit orientations away from the singularities of the element set, and both time directions.",
 ["inputs", "configurations", "histories"], "all combinations of orbit shape, orientation and phase from bounded menus including every quadrant of periapsis and node longitude, gravitational parameter, thrust level, step, integrator, direction and perturbation",
 "The equation-of-motion tests compare with stored numbers inside an expression that is always true, at one state per element set; trajectories are never compared with dynamics.",
 [Q, M, I, S], [("Gauss equations", M), ("control columns of the Gauss matrix", S), ("step update", Q+":QLaw.solve")], (), ["QLaw.states", "QLaw.controls", "QLaw.masses"])

prop("C06", "The steering law is the steepest descent of the Lyapunov quotient",
 "For every state where the quotient is differentiable, every target, weighting and set of parameters, the returned thrust angles give the direction for which the quotient decreases fastest: no other unit direction in the radial/transverse/normal frame yields a more negative rate of change of the quotient. "
 "The returned unit vector, angles and direction agree with each other, the reported rate equals the magnitude of the rate achieved, and the separately generated functions for the control columns, the gradient and the rate agree with those of the control function, with or without common-subexpression elimination.",
 ["inputs", "configurations"], "all combinations of orbits, targets, weights and law parameters from bounded menus (including states where target and current angles coincide), both element sets",
 "No test checks any value of the control law; examples only fail on exceptions.",
 [S, L], [("symbolic quotient and its gradient", S), ("vector to angles and rate", L)], (), ["lyapunov_control_angles", "symbolic_qlaw_keplerian", "symbolic_qlaw_mee_with_a"])

prop("C07", "The Lyapunov quotient is the documented one",
 "The quotient equals (1 + Wp P) times the weighted sum of squared element errors over their maximum rates, with the documented periapsis penalty and semi-major-axis scaling, angle errors taken the short way round; it is non-negative, zero exactly when all weighted errors are zero, and linear in the weights. "
 "For Keplerian elements the rates used for a, e, i and node are the true maxima over thrust direction and anomaly of the rates of change; for equinoctial elements that of a is, and those of f, g, h and k are the published ones (2 sqrt(p/mu) and sqrt(p/mu) s^2 / 2 over sqrt(1-g^2)+f and sqrt(1-f^2)+g). "
 "The recorded quotient history is the quotient of the recorded states.",
 ["inputs", "configurations"], "all combinations of orbits, targets, one-hot and mixed weights, and law parameters (Wp, k, rpmin, m, n, r, b, mu, acceleration) from bounded menus",
 "No test evaluates the quotient.",
 [S, Q], [("quotient construction", S), ("quotient storage", Q+":QLaw.solve")], (), ["lyapunov_control_angles", "QLaw.Qs"])

prop("C08", "Coasting decisions follow the effectivity thresholds",
 "Whenever the engine is available and a threshold is positive, it thrusts exactly if the current quotient descent rate is at least the absolute threshold times the best rate over one osculating revolution and, relative to the worst-to-best range, at least the relative threshold, best and worst being taken over the configured number of equally spaced anomalies ending at the current one. "
 "Recorded effectivities are those ratios, lie between 0 and 1, and do not depend on the direction of time; with both thresholds zero the engine never coasts for lack of effectivity. "
 "Thresholds may be numbers or functions of time, elements, mass and battery level at the start of the step, and a constant function acts like the number; any other kind of threshold is rejected.",
 ["inputs", "configurations", "histories"], "all combinations of thresholds, grid sizes, orbits, targets and phases, both element sets and directions, constant and callable thresholds, from bounded menus",
 "Tests pass thresholds but check neither the decisions nor the recorded values.",
 [Q], [("osculating revolution scan", Q+":QLaw.evaluate_osculating_qdot"), ("threshold test", Q+":QLaw.solve")], [("etas, etas_bounds", "recorded effectivities and thresholds", Q)], ["QLaw.etas", "QLaw.etas_bounds", "QLaw.controls"])

prop("C09", "The thrust duty cycle is honoured",
 "The engine is available from time zero, becomes unavailable at the first step that starts more than the ON duration after it last became available, and available again at the first step that starts more than the OFF duration after it last became unavailable. "
 "While unavailable it never thrusts; while available nothing but effectivity, battery or undefined steering keeps it off; durations are elapsed times, in either direction of time, and the default cycle never interrupts thrust.",
 ["configurations", "histories"], "all combinations of ON and OFF durations (shorter than, equal to and longer than a step), step sizes, fixed and angle-stepped, both integrators, element sets and directions",
 "One example uses a duty cycle and asserts nothing.",
 [Q], [("availability toggling", Q+":QLaw.solve")], [("duty, t_last_ON, t_last_OFF", "availability automaton", Q)], ["QLaw.controls", "QLaw.times"])

prop("C10", "The battery is never overdrawn and recharges as configured",
 "Forward in time, the battery level falls at the discharge rate during each step in which the engine is available and rises at the charge rate during every other, for the actual duration of the step, saturating at its minimum and maximum. "
 "The engine is unavailable in any step that starts at the minimum level, and a step in which it is available never draws more than what is left: it is shortened to end at the minimum instead. "
 "If full recharge is required, after reaching the minimum the engine stays unavailable until the level is at its maximum; otherwise it becomes available again as the duty cycle allows.",
 ["configurations", "histories"], "all combinations of initial level, capacity window, charge and discharge rates, recharge policy, duty cycle, steps and integrators from bounded menus",
 "Examples with a battery assert nothing; charging without full recharge and the adaptive integrator are not exercised with a battery at all.",
 [Q], [("availability, charging mode and step shortening", Q+":QLaw.solve"), ("battery update", Q+":QLaw.solve")], [("battery", "battery level history", Q), ("charging", "recharge mode", Q)], ["QLaw.battery", "QLaw.controls", "QLaw.times"])

prop("C11", "Angle stepping advances eccentric anomaly by the requested angle",
 "With the Sundman option every unperturbed step lasts exactly as long as two-body motion on the osculating orbit takes to advance the eccentric anomaly by the requested angle, whatever the orbit, phase (including across periapsis, apoapsis and full turns), gravitational parameter and sign of the step. "
 "In particular steps are never zero, never of the wrong sign, and N steps of 2 pi/N take one orbital period.",
 ["inputs", "configurations"], "all combinations of orbit shape, orientation, start phase, step angle of either sign, gravitational parameter, element set and integrator from bounded menus",
 "Two tests use the option and check only that the run converges.",
 [Q, E], [("step selection from eccentric and mean anomaly", Q+":QLaw.solve"), ("anomaly conversions", E+":ta2ea, mee2ea")], (), ["QLaw.times", "QLaw.states"])

prop("C12", "Orbit representations convert into each other without changing the orbit",
 "Cartesian, Keplerian, modified-equinoctial and semi-major-axis equinoctial representations of the same elliptic state convert into one another along any path without changing position or velocity, for every eccentricity (non-zero where a Cartesian state is the source), inclination below 180 degrees and combination of node, periapsis and anomaly quadrants, including exactly equatorial orbits and periapsis on the line of nodes. "
 "Converted elements are finite, and equinoctial elements satisfy their defining formulas.",
 ["inputs"], "every point of a lattice of orbit shapes, orientations and phases with boundary angles, every conversion path, several gravitational parameters",
 "Tests convert four similar orbits (one inclination, no retrograde, no equatorial, no boundary angle).",
 [E, T], [("conversions", E), ("rotation matrices", T)], (), ["kep2sv", "sv2kep", "kep2mee", "mee2kep", "kep2mee_with_a", "mee_with_a2kep", "mee2mee_with_a", "mee_with_a2sv"])

prop("C13", "Orbit geometry helpers agree with two-body mechanics",
 "Semi-major axis, eccentricity vector, inclination, node, periapsis argument, true anomaly and period computed from a Cartesian state are those of its two-body orbit, with unbound orbits reported by a negative period. "
 "Eccentric anomalies satisfy the two-body geometry of the state they were computed from, and the sampled orbit starts and ends at periapsis, covers one full turn in equal true-anomaly increments and lies on the orbit; angle wrapping returns the equivalent angle between -pi and pi, and each elementary rotation is a proper orthogonal frame rotation about its axis.",
 ["inputs"], "every point of a lattice of states, gravitational parameters, sample counts and angles, elliptic and hyperbolic",
 "Tests check these at three states of one inclination and at one sampled point.",
 [E, T], [("orbit element functions", E), ("wrap and rotations", T)], (), ["get_semiMajorAxis", "get_eccentricity", "get_inclination", "get_raan", "get_omega", "get_trueanom", "get_period", "ta2ea", "mee2ea", "get_orbit_coordinates"])

prop("C14", "The integrators have their advertised order",
 "One step of the fourth-order Runge-Kutta method reproduces the exact solution of an initial value problem up to terms of fifth order in the step, for any right-hand side, time-dependent or not, any dimension and either sign of the step; so does one step of the Fehlberg method. "
 "The Fehlberg step-size suggestion is finite, has the sign of the step, and decreases as the local error grows, scaling with the fourth root of tolerance over error.",
 ["inputs"], "every rooted-tree order condition up to order four for vector problems, every monomial quadrature up to degree four, both step signs and several step sizes",
 "The only test compares the two methods with each other at one small step with tolerances that hide an order loss.",
 [I], [("rk4 and rkf45 stages and weights", I)], (), ["rk4", "rkf45"])

prop("C15", "The equations of motion are Gauss's equations",
 "For Keplerian, modified-equinoctial and semi-major-axis equinoctial elements, the rate of change returned for any state, thrust and perturbing acceleration in the radial/transverse/normal frame equals the time derivative of those elements along the Newtonian motion with that acceleration. "
 "It is two-body motion plus a term linear in the sum of thrust and perturbation, for any gravitational parameter and any orbit away from the singularities of the element set.",
 ["inputs"], "every point of a lattice of orbits covering all quadrants (and periapsis longitude exactly at 90 degrees), acceleration directions and gravitational parameters",
 "The tests evaluate two states against stored numbers with an assertion that cannot fail.",
 [M, S], [("Gauss equations", M), ("control columns", S)], (), ["eom_kep_gauss", "eom_mee_gauss", "eom_mee_with_a_gauss"])

prop("C16", "Perturbing accelerations are physically correct",
 "The third-body term is the third body's attraction on the spacecraft minus that on the primary, the oblateness term is the gradient of the J2 potential about the body's principal axis, and the radiation term points away from the Sun with inverse-square strength; the frame matrix is a proper rotation onto the radial/transverse/normal axes. "
 "The total returned is the sum of exactly the enabled terms at the epoch of the requested time, expressed in that frame and in canonical units, whatever the element set, and no enabled terms give zero.",
 ["inputs", "configurations"], "every subset of terms and third bodies, a lattice of orbits, positions of the perturbing bodies, epochs, unit scales and element sets",
 "The module is not exercised by any test that can run here (no ephemeris kernels).",
 [R], [("perturbation formulas", R), ("sum, epoch and frame handling", R+":SpicePerturbations.get_perturbations_RTN")], (), ["perturbation_third_body_battin", "perturbation_J2", "perturbation_SRP", "pxformECI2RTN", "SpicePerturbations"],
 None)

prop("C17", "Convergence and safety predicates mean what they say",
 "The convergence tests return true exactly if every element with non-zero weight differs from its target by no more than its own tolerance, with node and periapsis angles of Keplerian elements compared modulo a full turn and elements with zero weight ignored. "
 "The safety function returns the elements with each of the first five clipped into its own bounds and the anomaly unchanged, leaving its arguments untouched.",
 ["inputs"], "every combination over the five elements of {inside, outside by excess, outside by defect, nan}, weights {zero, non-zero}, distinct tolerances, full-turn offsets; every combination of below/inside/above bounds",
 "One state is tested with all elements offset equally; wrapping, zero weights, single violations and clipping values are never checked.",
 [C], [("tolerance tests and clipping", C)], (), ["check_convergence_keplerian", "check_convergence_mee", "elements_safety"])

prop("C18", "Exported results describe the computed transfer",
 "The exported dictionary (and the JSON file, which reads back to the same numbers) holds one entry per recorded time, with the recorded times, the recorded states as modified equinoctial elements with the mass appended, and the recorded controls either as angles and throttle or as unit vectors in the radial/transverse/normal frame and throttle, padded with one final coasting entry, whatever the element set. "
 "The Cartesian history is the recorded states converted to position and velocity; its interpolated form starts and ends at the recorded endpoints at the returned evaluation times and between them follows the interpolant of the recorded states of the requested kind.",
 ["inputs", "configurations", "histories"], "every combination of element set, integrator, direction, gravitational parameter, thrust/coast pattern, export and interpolation option from bounded menus",
 "Tests call the export and delete the file without reading it.",
 [Q], [("export", Q+":QLaw.save_to_dict"), ("Cartesian history", Q+":QLaw.get_cartesian_history, interpolate_states")], (), ["QLaw.save_to_dict", "QLaw.get_cartesian_history"])

prop("C19", "Plots show the recorded histories",
 "Every plotting method draws the recorded data it is named for against the recorded times in the requested units: elements with their targets (or their Keplerian equivalents, in degrees), mass or anomaly, control angles in degrees and throttle in percent, anomaly wrapped to half a turn either side, battery level with its limits, effectivities with their thresholds, quotient and its rate, and trajectories with initial and target orbits. "
 "Sphere and ellipsoid helpers return points on the surface around the given centre, and equal-axis limits enclose the given ranges with equal extents.",
 ["configurations", "inputs"], "every plotting method with every combination of its options from bounded menus, both element sets",
 "Tests call the methods and look at nothing.",
 [PM, PH, T], [("plot methods", PM), ("helpers", PH), ("wrap", T)], (), ["matplotlib axes contents"])

prop("C20", "Ill-posed settings are rejected and well-posed ones accepted",
 "Building an object is refused for a non-positive gravitational parameter, an unknown element set or integrator, a tolerance vector that does not have five entries or a relaxation factor below one; posing a problem is refused unless the initial state has six entries, the weights (if given) five and the minimum mass is at least 0.01; solving is refused before a problem was posed or with thresholds that are neither floats nor functions. "
 "Every other combination is accepted and stored as given (a six-entry target by its first five entries, the relaxed tolerance as the factor times the tolerance), the rules for gravitational parameter, element set and integrator also apply when these are changed later, and a refused call leaves the object as it was.",
 ["configurations", "histories"], "every combination of valid and invalid values of each argument of construction, posing and solving, and of later attribute changes",
 "No test passes an invalid value.",
 [Q], [("assertions and property setters", Q+":QLaw")], (), ["exceptions raised by QLaw, set_problem, solve"])

prop("C21", "Results do not depend on units or on equivalent descriptions of a problem",
 "Rescaling the length and time units of a problem (with the gravitational parameter, thrust, flow rate, tolerances, bounds, durations and rates converted accordingly) rescales the recorded histories and leaves outcome, angles, throttle and effectivities unchanged. "
 "Adding full turns to any angle of the initial state or target, or for Keplerian elements the same offset to initial and target node, changes nothing but those angles, as long as the element bounds are not reached.",
 ["configurations", "inputs"], "every combination of unit scales, element set, integrator, angle stepping, thresholds, duty cycle and battery from bounded menus",
 "All tests use a gravitational parameter of one and one scaling.",
 [Q, S, M, E], [("use of mu throughout", Q), ("angle errors through cosines", S)], (), ["all QLaw histories"])

prop("C22", "The quotient decreases along the computed transfer at the recorded rate",
 "For small steps without mass flow, the recorded quotient changes over a thrusting step by minus the magnitude of the recorded rate times the step duration (so it decreases, in either direction of propagation), to first order in the step, and over a coasting unperturbed step not at all. "
 "With the effectivity test off and no external perturbation, it therefore never increases away from the target.",
 ["histories", "inputs", "configurations"], "all runs from a lattice of initial and target orbits, weights, law parameters, directions, element sets and integrators, every step of each",
 "Tests do not look at the quotient history; a wrong sign in one component still often converges.",
 [Q, S, L, M], [("closed loop of control law and dynamics", Q+":QLaw.solve")], (), ["QLaw.Qs", "QLaw.dQdts"])

prop("C23", "Options that should not matter do not",
 "Verbosity, print frequency, a perturbation model that returns zero, effectivity grid size when thresholds are zero, thresholds given as constant functions, duty cycles and batteries that never bind, sequence types of weights and tolerances, six- instead of five-entry targets and unequal but never reached bounds leave every recorded history and the outcome unchanged. "
 "Calling the printing helpers has no effect on the object.",
 ["configurations"], "every pair of settings from the menu, both element sets and integrators",
 "Each test uses one setting; no two runs are compared.",
 [Q], [("optional features of the main loop", Q+":QLaw.solve")], (), ["all QLaw histories"])

prop("C24", "What is printed is what happened",
 "The problem summary names the elements of the set in use with initial value, target and weight; the result summary states the outcome code, the convergence flag, the final elements with their absolute differences to the target, the transfer time and the final mass; the settings summary states element set, element names, integrator, tolerances and relaxed limit in force. "
 "A run prints nothing at verbosity 0, exactly one closing line naming the true reason of its end at verbosity 1, and at verbosity 2 or more in addition a headed row for every step whose index (from zero) is a multiple of the print frequency, except the step on which it converges: index, time after the step, the five differences to the target and the anomaly of the state after the step.",
 ["configurations", "histories"], "every way a run can end, every verbosity and print frequency from a menu, both element sets, integrators, directions and steppings, weights, tolerances and limits",
 "Tests never read what is printed.",
 [Q], [("progress rows and closing messages", Q+":QLaw.solve"), ("summaries", Q+":QLaw.pretty, pretty_results, pretty_settings")], (), ["standard output"])

prop("C25", "A run can be continued from its records, and stopping rules only end it",
 "Tolerances, the relaxed limit, minimum mass, undefined-angle limit and time budget decide only where a run ends: up to there its records are those of the same run without them. "
 "A new problem posed with the state, mass and battery level recorded at any step (with time-dependent thresholds and perturbations shifted to that time) repeats the remaining records, provided the engine has no pending duty-cycle or recharge phase at that step.",
 ["histories", "configurations"], "every run of a covering array over everything a problem combines and every recorded step of it",
 "Tests solve whole transfers once; no run is compared with a longer one or with its own continuation, so anything carried over between steps that is not recorded goes unseen.",
 [Q], [("loop state: time, elements, mass, level, availability", Q+":QLaw.solve")], (), ["all QLaw histories"])

prop("C26", "Whole transfers progress as fast as the documented law promises",
 "While thrust is small against gravity and steps are short against a revolution, the quotient of a transfer falls to three quarters, a half, a quarter and a tenth of its initial value after the same time, within a few per cent, as for an ideal spacecraft that follows the documented law under Newtonian motion, "
 "for both element sets, integrators, directions, fixed and angle steps, with or without mass flow, duty cycle and external acceleration.",
 ["inputs", "configurations"], "all settings and scenarios over a lattice of orbits and targets, whole transfers of up to some thousand steps",
 "Tests assert at most that a handful of transfers converge within a generous budget, not how long they take.",
 [Q, S, L, M], [("closed loop of control law and dynamics", Q+":QLaw.solve")], (), ["QLaw.states", "QLaw.times", "QLaw.masses"])

prop("C27", "Runs in progress do not disturb each other",
 "Several objects may be run at the same time, in threads or from inside one another's threshold or perturbation functions: however their steps interleave, each records exactly what it records when run alone, also when they were given the same arrays, lists and functions. "
 "(One object is run by one caller at a time.)",
 ["schedules"], "every interleaving of the steps of two and three short runs, every schedule with one change of thread at any line of the package, every step of a run at which a user function runs another problem",
 "Tests run one object after the other in one thread; module-level state shared by two runs in progress is never exercised.",
 [Q, S, L, M, I, E, C], [("main loop with its working storage", Q+":QLaw.solve"), ("module-level functions and values", S+", "+M+", "+I)], (), ["all QLaw histories"])

prop("C28", "A run cut off by an exception leaves a usable, honest object",
 "An exception raised by a threshold or perturbation function, or a KeyboardInterrupt at any point of a run, comes out of solve unchanged. "
 "What was recorded until then are the first steps of the uninterrupted run, no outcome is claimed (code 0, convergence flag false), the arguments and the problem are as given, and solving again, the same problem or another, gives what a fresh object gives.",
 ["crash_points", "histories"], "every call of every user function and every executed line of solve at which an exception can be raised, in runs of all settings from a menu; two interruptions in a row",
 "No test interrupts a run.",
 [Q], [("histories and outcome re-initialised at the start of a run", Q+":QLaw.solve"), ("per-step append block", Q+":QLaw.solve")],
 [("exitcode, converge", "outcome of the last run", Q)], ["all QLaw histories", "QLaw.exitcode", "QLaw.converge"])

prop("C29", "A setting changed on the object is in force at the next run",
 "Assigning to an object's public attributes before solving (mu, the quotient parameters rpmin, wp, k, m, n, r and b, integrator, anomaly grid size, element bounds, tol_oe and tol_oe_relaxed, counters of relaxed exit and undefined angles, use of angle steps, perturbations, verbosity, print frequency, and every parameter of the posed problem) has exactly the effect of giving that value at construction or when posing the problem, also after earlier runs with other values. "
 "The element set is fixed at construction.",
 ["configurations", "histories"], "every run of a covering array over everything a problem combines, repeated on an object built with other values of every setting that are changed at once, after a run, or in halves with a run in between",
 "Tests never change an attribute; a value copied somewhere at construction and used later goes unseen.",
 [Q], [("settings stored as attributes and read in the main loop", Q+":QLaw.__init__, set_problem, solve")], (), ["all QLaw histories"])

prop("C30", "What is read off an object is about its last run",
 "After every run, everything that can be read off the object - histories, Cartesian histories and interpolants, exported dictionaries and files, printed summaries, plots, with any options - is what a fresh object that made only that run gives. "
 "This holds whatever problems the object ran before (also ones that differ in a single component), whatever was read before, in any order and however often, from this object, a deep copy of it or another, and whatever the caller did to arrays and dictionaries it passed in or was given.",
 ["histories"], "walks over problems that differ in one component with everything read after every run, and all ordered pairs of readings on one object and on two objects in turn",
 "Tests call a reading method at most once per object and do not look at what it returns.",
 [Q, "pyqlaw/_plot_methods.py"], [("get_cartesian_history, interpolate_states, save_to_dict, pretty methods", Q), ("plotting methods", "pyqlaw/_plot_methods.py")], (), ["return values, files, output and figures of all reading methods"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
