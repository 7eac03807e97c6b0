"""Regenerates /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("stateless exploration of all environment-answer sequences on the real solve() + reference exit automaton", "every script of per-step outcomes to the depth in the evidence file; outcomes compared with an explicit exit automaton"),
 "C02": ("exhaustive operation sequences on live objects against fresh objects", "all call histories to the stated depth, bit-for-bit comparison with fresh objects; alphabet of six problems and five kinds of operations"),
 "C03": ("stateless exploration of environment answers and of a configuration product on the real code", "every recorded history checked entry by entry; depth and menus in the evidence file"),
 "C04": ("stateless exploration of throttle scripts against a propellant ledger", "exact ledger; mass history independent of physics"),
 "C05": ("exhaustive input lattice on the real integrators against an independent Newtonian propagation", "lattice points only; first-order tolerance because psi is frozen per step"),
 "C06": ("exhaustive input lattice against complex-step steepest descent", "lattice points only"),
 "C07": ("exhaustive input lattice against the documented quotient", "lattice points only"),
 "C08": ("exhaustive configuration and threshold product, decisions probed on both sides of every threshold", "lattice points only; rates recomputed independently"),
 "C09": ("explicit-state replay of every run on a duty-cycle automaton", "all menu points; traces replayed step by step"),
 "C10": ("explicit-state replay of every run on a battery automaton", "all menu points; traces replayed step by step"),
 "C11": ("exhaustive lattice of angle steps against Kepler's equation", "lattice points only"),
 "C12": ("exhaustive exploration of conversion compositions on an orbit lattice", "all conversion paths to a depth, on lattice orbits"),
 "C13": ("exhaustive input lattice against two-body mechanics", "lattice points only"),
 "C14": ("exhaustive lattice of problems and step sequences against rooted-tree order conditions and exact solutions", "order verified on the lattice of problems"),
 "C15": ("exhaustive input lattice against Gauss's equations derived by complex step from Newton's law", "lattice points only"),
 "C16": ("exhaustive product of options and geometries on real SPICE with synthetic kernels", "lattice points only; SPICE itself trusted"),
 "C17": ("exhaustive product of abstract positions of all elements against the predicate's model", "complete product of abstract positions"),
 "C18": ("exhaustive product of solved transfers and export options against an independent re-derivation", "menu points only"),
 "C19": ("exhaustive product of solved transfers and plot options; drawn artists read back and compared with histories", "menu points only; matplotlib trusted"),
 "C20": ("exhaustive product of ill- and well-posed settings and of call orders", "menus of settings; all orders to a depth"),
 "C21": ("exhaustive product of runs and equivalent descriptions, compared with each other", "runs of a lattice; metamorphic comparison to 1e-7"),
 "C22": ("exhaustive product of runs with the quotient's decrease monitored on every step", "runs of a lattice; first-order agreement"),
 "C24": ("exhaustive product of run endings, verbosities and frequencies; all output parsed back and compared with the histories", "menus of settings; whole output of every run"),
 "C25": ("exhaustive t-way feature combinations; every run compared with its unstopped twin and with its own continuation from recorded steps", "composition is checked at every admissible recorded step of short runs and at four of each long run"),
 "C26": ("exhaustive lattice of whole transfers against a reference simulation of the documented law", "lattice points only; agreement of milestones within 3 per cent (7 with duty cycles)"),
 "C27": ("stateless exploration of interleavings of the real runs under a controlled scheduler (all step interleavings; preemption-bounded at line level)", "all schedules within the bounds of the evidence file; compiled kernels are atomic"),
 "C28": ("fault injection at every crash point of a run (every user call, every executed line of solve)", "all crash points of the runs in the evidence file; pairs of crash points on shorter runs"),
 "C29": ("exhaustive t-way feature combinations; every run repeated with all settings assigned late", "covering array of settings; three ways of assigning"),
 "C30": ("explicit exploration of histories of pose, solve and read operations on live objects against fresh processes", "all ordered pairs of readings; problems that differ in one component; bit-for-bit comparison"),
 "C23": ("exhaustive pairs of neutral options, histories compared with the plain run", "all singles and pairs of listed options over a product of runs"),
}
FEAT = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C18 C19 C21 C23 C24".split()
for k in FEAT: T[k] = (T[k][0] + "; exhaustive t-way feature combinations (covering array) replayed step by step in the reference model", T[k][1])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import re
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    src = open(os.path.join(here, "mc/checks/%s.py" % i.lower())).read()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    checks.append(dict(property=i, quick_cmd="./run.sh %s" % i, thorough_cmd="VERIF_TIER=thorough ./run.sh %s" % i, evidence_file="evidence/%s.json" % i,
                       technique="model checking: " + T[i][0], level=level,
                       level_note=T[i][1] + ". Bounded: nothing is claimed outside the enumerated space."))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, numba, spiceypy, matplotlib'", checks=checks, not_applicable=[],
               notes="No hooks in /repo: public seams only. Repairs (fix: commits) are listed in known_findings.json."), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
