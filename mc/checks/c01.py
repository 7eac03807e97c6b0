"""C01: stateless exploration of QLaw.solve under a scripted environment; exits compared with the exit automaton."""
import itertools, inspect
import numpy as np
import pyqlaw
from .. import ref, features
from ..prob import build, warm_run

LEVEL = "model_checking"
RULE = ("stateless depth-first search over every choice the environment has in each step of the real solve(): where the step ends (within "
        "tolerance / relaxed tolerance / beyond both / in the region of undefined steering, steered by an external acceleration) and whether the "
        "engine thrusts (threshold callable); every recorded history is replayed in the exit automaton; state = (element set, integrator, direction, "
        "configuration, relaxed exits so far, undefined steps so far, thrust steps so far, position), transition = one step")
BOUNDS = dict(quick="all choice sequences of length <= 4 (3 for the secondary element-set/integrator/direction combinations) x exit_at_relaxed {1,2,3} x "
                    "nan threshold {0,1,2} x mass budget {1,2 thrust steps, none} x time budgets {0, a fraction of a step, between steps, depth steps}; counters vary together for the secondary combinations",
              thorough="all choice sequences of length <= 6 (5 secondary), otherwise as quick plus relaxed exits 4, nan threshold 3")
ASSUME = ["steering is undefined where the periapsis penalty overflows"]
RULE += features.RULE
BOUNDS = {k: v + features.BOUND[k] for k, v in BOUNDS.items()}
NEED = {"exit1": 100, "exit2": 100, "exit-1": 100, "exit-2": 100, "exit-3": 100, "tie": 50}
DT = 2.0**-7
TOL, FAC = 1e-4, 5.0
AT = 1.0
E0 = 0.2
OFF = [2e-3, 3e-4, 0.3e-4, -6e-3]          # far, relaxed, converged, undefined
RPMIN = .797
KP = 1e7
MAIN = ("mee_with_a", "rk4", 1, False)
COMBOS = [MAIN, ("keplerian", "rk4", 1, False), ("mee_with_a", "rkf45", 1, False), ("keplerian", "rkf45", -1, False), ("mee_with_a", "rk4", -1, False),
          ("keplerian", "rk4", 1, True), ("mee_with_a", "rk4", 1, True)]


class Env:
    def __init__(self, kind): self.kind = kind; self.mass_choice = False
    def start(self, script): self.script = script; self.log = []
    def choose(self, n):
        i = len(self.log)
        c = self.script[i] if i < len(self.script) else 0
        self.log.append((c, n))
        return c
    def eta(self, t, oe, mass, battery):
        return [0.0, 2.0][self.choose(2)] if self.mass_choice else 0.0
    def get_perturbations_RTN(self, t, oe, elements_type):
        goal = AT + OFF[self.choose(4)]
        B, _ = ref.gauss(self.kind, oe, 1.0)
        be = B[1] if self.kind == "keplerian" else (oe[1]*B[1]+oe[2]*B[2])/np.hypot(oe[1], oe[2])
        e = oe[1] if self.kind == "keplerian" else np.hypot(oe[1], oe[2])
        A = np.array([B[0][:2], be[:2]])*self.dt
        p = np.linalg.solve(A, [goal-oe[0], E0-e])
        return np.array([p[0], p[1], 0.0])


class LongEnv(Env):
    """far from the target except in the given steps; thrusts only in the given steps"""
    def start(self, plan, thrust=()): self.plan, self.thrust, self.step, self.log = plan, thrust, 0, []
    def eta(self, t, oe, mass, battery): return 2.0 if self.mass_choice and self.step not in self.thrust else 0.0
    def choose(self, n): z = self.plan.get(self.step, self.rest); self.step += 1; return z


MENU = [0, 1, 2, 8, 9, 10, 11, 19, 20, 24, 31, 49, 50, 51, 63, 64, 98, 99, 100, 101, 127, 128, 149, 199, 200, 249, 250, 255, 256]
LLEN = 262
LONG = [MAIN, ("keplerian", "rkf45", -1, False), ("keplerian", "rk4", 1, False), ("mee_with_a", "rk4", -1, False)]


def plans(what, q):
    """(plan, thrusting steps, resting place, settings): every set of at most 2 (3) deviations at the steps of the menu"""
    M = MENU if q else sorted(set(MENU) | {5, 15, 25, 39, 40, 47, 48, 75, 79, 80, 111, 150, 174, 175, 224, 239, 240, 251})
    T = M[::3] if q else M[::2]
    if what == "relaxed":
        for i, j in itertools.combinations(M, 2): yield {i: 1, j: 1}, (), 0, dict(exit_at_relaxed=2)
        for i, j, k in itertools.combinations(T, 3): yield {i: 1, j: 1, k: 1}, (), 0, dict(exit_at_relaxed=3)
    if what == "undefined":
        for i, j in itertools.combinations(M, 2): yield {i: 3, j: 3}, (), 0, dict(nan_angles_threshold=1)
        for i, j, k in itertools.combinations(T, 3): yield {i: 3, j: 3, k: 3}, (), 0, dict(nan_angles_threshold=2)
    if what == "mixed":
        for i, j, k in itertools.combinations(T, 3):
            for z in ((1, 3, 1), (3, 1, 3), (1, 3, 2), (3, 1, 2)): yield dict(zip((i, j, k), z)), (), 0, dict(exit_at_relaxed=2, nan_angles_threshold=1)
    if what == "converged":
        for i in M: yield {i: 2}, (), 0, {}; yield {i: 2}, (), 3, dict(nan_angles_threshold=10**6)
    if what == "tanks":
        for i, j in itertools.combinations(M, 2): yield {}, (i, j), 0, {}
    if what == "defaults":          # the limits nobody sets
        for i in [None]+M: yield {i: 0}, (), 1, {}; yield {i: 0}, (), 3, {}


def long(c, r):
    kind, integ, sgn, sund = c["combo"]
    env = LongEnv(kind); env.mass_choice = c["long"] == "tanks"
    N = LLEN if c["q"] else 2*LLEN
    for n, (plan, thrust, rest, kw) in enumerate(plans(c["long"], c["q"])):
        if n % c["of"] != c["part"]: continue
        d = dict(c, k=kw.get("exit_at_relaxed"), n=kw.get("nan_angles_threshold"), m=2 if thrust else None, tf=N)
        env.rest = rest
        p, x0, xT, woe, m0, mdot, mmin, dt = setup(d, env, 2.0**-9)
        D = inspect.signature(pyqlaw.QLaw.__init__).parameters
        for a, b in (("k", "exit_at_relaxed"), ("n", "nan_angles_threshold")):
            if d[a] is None: d[a] = D[b].default
        env.start(plan, thrust); p.solve(eta_a=env.eta, eta_r=0.0)
        if not judge(d, p, xT, woe, m0, mmin, N*dt, r, env, plan={str(a): b for a, b in plan.items()}, thrust=thrust, rest=rest): return
        r.tag("long %s exit%d" % (c["long"], p.exitcode))
    r.sample = dict(long=c["long"], combo=c["combo"], plan={str(a): b for a, b in plan.items()}, steps=len(p.times)-1, code=p.exitcode)


def _cases(tier):
    q = tier == "quick"
    ks = (1, 2, 3) if q else (1, 2, 3, 4)
    ns = (0, 1, 2) if q else (0, 1, 2, 3)
    out = []
    for combo in COMBOS:
        d = (4 if combo == MAIN else 2 if combo[3] else 3) + (0 if q else 2)
        for k, n, m in itertools.product(ks, ns, (1, 2, None)):
            if q and combo != MAIN and k != n+1: continue
            for first in range(4):
                out.append(dict(combo=list(combo), k=k, n=n, m=m, depth=d, tf=d, first=first))
            if k == 2 and n == 1: out.append(dict(combo=list(combo), k=k, n=n, m=m, depth=d, tf=d-1.5, first=None))
        out.append(dict(combo=list(combo), k=1, n=1, m=None, depth=1, tf=0, first=None))
        out.append(dict(combo=list(combo), k=2, n=1, m=0, depth=2, tf=2, first=None))      # no propellant to start with
        out.append(dict(combo=list(combo), k=1, n=0, m=None, depth=3, tf=.25, first=None))   # less than one step
    for n, combo in enumerate(LONG):
        for what in ("relaxed", "undefined", "mixed", "converged", "tanks", "defaults"):
            of = 24 if what in ("relaxed", "undefined", "mixed", "tanks") else 4
            for part in range(of):
                if q and n and part % 8 != n: continue
                out.append(dict(long=what, combo=list(combo), part=part, of=of, q=q))
    return out


def warm(): warm_run()


def setup(c, env, DT=DT):
    kind, integ, sgn, sund = c["combo"]
    kep = kind == "keplerian"
    p = build(kind, integrator=integ, k_petro=KP, rpmin=RPMIN, anomaly_grid_size=2, perturbations=env, **{a: b for a, b in (("exit_at_relaxed", c["k"]), ("nan_angles_threshold", c["n"])) if b is not None},
              relaxed_tol_factor=FAC, tol_oe=[TOL, 1e-5, 1e-5, 1e-5, 1e-5], use_sundman=sund)
    k0 = np.array([AT+OFF[0], E0, .4, 1.0, .7, 1.6])
    x0 = ref.to_kind(kind, k0)
    xT = x0[:5] + np.array([0, .3, .2, .3, -.2]); xT[0] = AT
    woe = [1.0, 0, 0, 0, 0]
    if kep:                                              # a node already at its target, one turn away
        woe = [1.0, 0, 0, 1.0, 0]; xT[3] = x0[3] + 2*np.pi
    dt = sgn*DT
    mdot = .125/DT
    m0 = 2.0
    mmin = 0.1
    if c["m"] is not None:
        if sgn > 0: mmin = m0 - .125*c["m"]
        else: mdot = -mdot; mmin = m0 - .125*c["m"]       # tanks being filled forward, emptied backward
    if c["m"] == 0 or "long" in c and c["m"] is None: mdot = 0.0
    step = dt
    if sund:                                             # angle step with about the same duration; mass per step then varies
        step = sgn*DT*1.0
        mdot = 0.0 if c["m"] is None or c["m"] == 0 else mdot
    env.dt = dt
    env.mass_choice = c["m"] not in (None, 0)
    p.set_problem(x0, xT, m0, 1e-10, mdot, c["tf"]*dt, step, mass_min=mmin, woe=woe)
    return p, x0, xT, np.array(woe), m0, mdot, mmin, dt


def oracle(c, p, xT, woe, m0, mmin, tf, r, env):
    """replay the recorded history in the automaton; returns (steps, code) it prescribes, or the reason none fits"""
    kind = c["combo"][0]
    relaxed = nan = 0
    tol = np.array([TOL, 1e-5, 1e-5, 1e-5, 1e-5])
    N = len(p.times)-1
    cfg = (tuple(c["combo"]), c["k"], c["n"], c["m"], c["tf"])
    key = cfg + (0, 0, 0, "F", 0)
    r.states.add(key)
    thr = 0
    for j in range(N+1):
        if not abs(p.times[j]) < abs(tf): return j, -2
        x = p.states[j]
        e = x[1] if kind == "keplerian" else np.hypot(x[1], x[2])
        undef = KP*(1-x[0]*(1-e)/RPMIN) > 800
        if undef:
            nan += 1
            if nan > c["n"]: return j, -3
        if j == N: return None, None                     # the automaton goes on, the run did not
        if undef and p.controls[j][2] != 0: return None, "thrusting with undefined steering"
        y = np.asarray(p.states[j+1], float)
        d = np.abs(y[:5]-xT)
        if kind == "keplerian":
            for q in (3, 4): d[q] = abs(ref.angdiff(y[q], xT[q]))
        on = woe > 0
        ok, okr = bool(np.all(d[on] <= tol[on])), bool(np.all(d[on] <= FAC*tol[on]))
        thr += int(p.controls[j][2])
        low = p.masses[j+1] <= mmin
        late = not abs(p.times[j+1]) < abs(tf)
        relaxed += okr
        pos = "C" if ok else "R" if okr else "N" if y[0] < AT-1e-3 else "F"
        nxt = cfg + (relaxed, nan, thr, pos, j+1)
        r.states.add(nxt); r.trans.add((key, nxt)); key = nxt
        if ok+(okr and relaxed >= c["k"])+low+late > 1: r.tag("tie")
        if ok: return j+1, 1
        if okr and relaxed >= c["k"]: return j+1, 2
        if low: return j+1, -1


def judge(c, p, xT, woe, m0, mmin, tf, r, env, **detail):
    r.n += 1; r.traces += 1
    steps, code = oracle(c, p, xT, woe, m0, mmin, tf, r, env)
    got = (len(p.times)-1, p.exitcode)
    r.tag("exit%s" % p.exitcode)
    if (steps, code) == got and p.converge == (code in (1, 2)): return True
    j = max(got[0]-5, 0)
    r.bad("run ended with (steps, code, flag) = %s, expected %s %s" % (got + (p.converge,), (steps, code), code in (1, 2)), key="exit",
          times=p.times[j:], a=[s[0] for s in p.states][j:], masses=p.masses[j:], throttle=[u[2] for u in p.controls][j:], **detail)


def cases(tier): return list(_cases(tier)) + features.cases(tier)


def run_case(c, r):
    if "feat" in c: return features.play(c, r, features.outcome)
    if "long" in c: return long(c, r)
    env = Env(c["combo"][0])
    p, x0, xT, woe, m0, mdot, mmin, dt = setup(c, env)
    tf = c["tf"]*dt
    # the first step's end position is fixed per case to split the tree; it is the first perturbation choice
    npre = 1 if not env.mass_choice else 2
    scripts = [[]]
    if c["first"] is not None: scripts = [[c["first"]]] if npre == 1 else [[0, c["first"]], [1, c["first"]]]
    for pre in scripts:
        script = list(pre)
        while True:
            env.start(script)
            p.solve(eta_a=env.eta, eta_r=0.0)
            if not judge(c, p, xT, woe, m0, mmin, tf, r, env, choices=[a for a, _ in env.log]): return
            r.sample = dict(config={k: c[k] for k in ("k", "n", "m", "tf")}, combo=c["combo"], choices=[a for a, _ in env.log], steps=len(p.times)-1, code=p.exitcode)
            log = env.log
            if len(log) > 60: r.bad("run did not end", key="long"); return
            k = len(log)-1
            while k >= len(pre) and log[k][0] == log[k][1]-1: k -= 1
            if k < len(pre): break
            script = [a for a, _ in log[:k]] + [log[k][0]+1]
