"""Regenerates /verif/known_findings.json: open findings and repaired defects."""
import json, os
F = [("C13", "a25a98a", "wrap() wrapped angles wrongly: x % 2.0 * pi parses as (x % 2.0) * pi"),
("C02", "2613a5a", "elements_safety() clipped its argument in place, so solve() altered the caller's initial state"),
("C01", "c559a58", "solve() kept converge/exitcode of the previous run"),
("C11", "10e258f", "Sundman steps with a negative angle went forward in time"),
("C15", "9efaf29", "true anomaly of equinoctial elements was computed without the quadrant of (f, g)"),
("C16", "a4546ff", "J2 acceleration used z^2 instead of (z/r)^2"),
("C14", "6f33d26", "rkf45() multiplied its stages by the step twice, had a wrong weight of k4 and divided by a vanishing error"),
("C10", "0c82db8", "battery level changed by the suggested next step instead of the step taken"),
("C18", "2b76e6e", "save_to_dict() exported Keplerian states through the MEE conversion"),
("C08", "8690ba3", "an eta_r of an invalid type was accepted"),
("C08", "2a6360e", "effectivities and recorded angles of backward propagation had the wrong sign"),
("C12", "13697b0", "mee2kep() lost the periapsis direction of equatorial orbits"),
("C12", "f85db96", "mee2kep() of equatorial orbits with h = -0.0"),
("C13", "b418048", "argument of periapsis and inclination nan due to round-off in arccos"),
("C10", "a3b33de", "steps were shortened to the battery level when it was not being drawn"),
("C09", "57362ec", "duty cycle ignored in backward propagation"),
("C07", "a3cf7f2", "Keplerian scaling of the semi-major axis error took a power of a negative number"),
("C06", "56110fd", "Keplerian angle errors were not differentiable where they vanish (steering undefined at the target node)"),
("C06", "d3c6394", "out-of-plane thrust angle of a purely normal vector undefined"),
("C16", "bf9fd41", "SpicePerturbations(third_bodies_names=None) raised"),
("C19", "afd329a", "periapsis overlay of equinoctial element histories drew the wrong quantity"),
("C06", "c80070a", "quotient, gradient and steering of nearly circular Keplerian orbits (e below 0.005) were nan by cancellation"),
("C10", "c122227", "solve() of a problem that starts with an empty battery raised UnboundLocalError"),
("C30", "2ffe521", "set_problem() kept the caller's arrays: changing them afterwards changed the problem; lists, tuples and integer arrays did not work"),
("C30", "84fce0c", "save_to_dict() exported the history's own list of times: changing it changed the object"),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(dict(findings=[], fixed=["fixed: property=%s %s %s" % f for f in F]), open(os.path.join(here, "known_findings.json"), "w"), indent=1)
