"""C28: interrupted runs."""
import itertools, sys
import numpy as np
from .. import ref
from ..prob import build, hist, same, warm_run
from ..sched import package
from .c27 import P, Point, spec, fresh, alone

LEVEL = "model_checking"
RULE = ("fault injection at every crash point of a run: an exception (of the user's or KeyboardInterrupt) is raised at each call of each user function (perturbation, both thresholds) and at each "
        "executed line of the solving method; the exception must come out, the records must be those of the first steps of the uninterrupted run, no outcome may be "
        "claimed, arguments must be intact, and solving again (same problem, or another posed before) must repeat a fresh object bit for bit; two interruptions in a row are enumerated "
        "too; state = (problem, crash point), transition = recorded step compared")
BOUNDS = dict(quick="12 problems (ending by time, mass, relaxed and undefined counters) x every call of 3 user functions in runs of 7 steps x 36 kinds of exceptions, all pairs of calls in runs of 4 steps, every line event of runs of 3 steps",
              thorough="12 problems (ending by time, mass, relaxed and undefined counters) x every call in runs of 25 steps x 36 kinds of exceptions, all pairs of calls in runs of 9 steps, every line event of runs of 12 steps and all pairs of line events 7 apart in runs of 2 steps")
ASSUME = ["an exception raised between the appends of one step may leave some histories one entry ahead of others"]
NEED = {"call": 300, "line": 2000, "twice": 300, "again": 2000, "other": 300}
ROWS = ("times", "states", "masses", "battery"); STEPS = ("controls", "etas", "etas_bounds", "Qs", "dQdts")


class Boom(Exception): pass
class BoomInterrupt(KeyboardInterrupt): pass
class Quiet(BaseException): pass
KINDS = (Boom, BoomInterrupt, Quiet)
from spiceypy.utils.exceptions import SpiceyError
# every built-in kind of error, each raised as a class of its own
MORE = tuple(type("Boom"+b.__name__, (b,), {}) for b in (KeyError, IndexError, LookupError, ValueError, TypeError, AttributeError, NameError, ZeroDivisionError, FloatingPointError, OverflowError,
    ArithmeticError, AssertionError, StopIteration, StopAsyncIteration, NotImplementedError, RecursionError, RuntimeError, OSError, FileNotFoundError, TimeoutError, MemoryError, EOFError, ImportError, BufferError,
    ReferenceError, SyntaxError, SystemError, Warning, RuntimeWarning, SystemExit, GeneratorExit, np.linalg.LinAlgError, SpiceyError))


def warm(): warm_run()


def cases(tier):
    q = tier == "quick"
    out = [dict(call=a, N=7 if q else 25, seam=s) for a in range(len(P)) for s in ("perturbation", "eta_a", "eta_r")]
    out += [dict(twice=a, N=4 if q else 9, seam=s) for a in range(len(P)) for s in ("perturbation", "eta_a")]
    n = 2 if q else 8
    out += [dict(line=a, N=3 if q else 12, part=k, of=n) for a in range(len(P)) for k in range(n)]
    if not q: out += [dict(lines=a, N=2, part=k, of=12) for a in range(len(P)) for k in range(12)]
    return out


def bomb(seam, eta, at, exc):
    """perturbation hook and thresholds that raise at the at-th call of the seam"""
    n = [0]
    def tick():
        n[0] += 1
        if n[0] == at: raise exc("stop here")
    e0, e1 = eta
    hook = tick if seam == "perturbation" else lambda: None
    ea = (lambda t, oe, m, b: (tick(), e0)[1]) if seam == "eta_a" else e0
    er = (lambda t, oe, m, b: (tick(), e1)[1]) if seam == "eta_r" else e1
    return hook, (ea, er), n


def records(p, prior, h, r, aligned, what):
    """what is recorded are the first steps of the whole run"""
    if prior: return "%s: the outcome is (%s, %s)" % (what, p.exitcode, p.converge) if (p.exitcode, p.converge) != (0, False) else None
    keys = dict(etas_bounds="bounds")
    if not all(hasattr(p, k) for k in ROWS+STEPS): r.tag("nothing recorded"); return
    ln = {}
    for k in ROWS+STEPS:
        v = [np.asarray(x, float) for x in getattr(p, k)]
        w = h[keys.get(k, k)]
        if len(v) > len(w) or not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(v, w)): return "%s: %s are not those of the uninterrupted run" % (what, k)
        ln[k] = len(v) - (k in ROWS)
    lo, hi = min(ln.values()), max(ln.values())
    if hi-lo > (0 if aligned else 1): return "%s: histories have lengths %s" % (what, ln)
    r.ntrans += max(lo, 0)
    n = len(h["controls"])
    if not ((p.exitcode == 0 and p.converge is False) or (lo == n and p.exitcode in (0, h["exitcode"]) and p.converge in (False, h["converge"]))):
        return "%s: after %d of %d steps the outcome is (%s, %s)" % (what, lo, n, p.exitcode, p.converge)


def again(p, sp, h, r, other=None, what=""):
    """the object solves as a fresh one does"""
    if other is not None:
        o, ho = other
        kw = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in o["d"].items()}
        p.perturbations.hook = lambda: None
        p.set_problem(**kw); p.solve(*o["eta"])
        r.tag("other")
        d = same(hist(p), ho)
        if d: return "%s: another problem posed afterwards gives %s" % (what, "; ".join(d)[:300])
        return
    p.perturbations.hook = lambda: None
    p.solve(*sp["eta"])
    r.tag("again")
    d = same(hist(p), h)
    if d: return "%s: solving again gives %s" % (what, "; ".join(d)[:300])


def other_problem(sp, N):
    """another problem for the same settings, and its histories on a fresh object"""
    d = dict(sp["d"]); x = d["oe0"].copy(); x[0] *= 1.07; x[5] += 1.1
    d.update(oe0=x, mass0=d["mass0"]*1.2)
    o = dict(sp, d=d)
    p = fresh(o); p.solve(*o["eta"])
    return o, hist(p)


def frozen(sp): return {k: np.array(v, float).copy() for k, v in sp["d"].items() if k in ("oe0", "oeT", "woe", "duty_cycle", "battery_capacity", "battery_charge_discharge_rate")}


def intact(p, sp, fz):
    for k, v in fz.items():
        if not np.array_equal(np.array(sp["d"][k], float), v): return "argument %s was modified" % k
        if not np.array_equal(np.array(getattr(p, k), float), v): return "problem setting %s was modified" % k


def posed(sp):
    """object solving the problem given by the very arrays of the specification"""
    p = build(sp["kind"], **sp["ka"], perturbations=Point()); p.set_problem(**sp["d"])
    return p


def run_case(c, r):
    which = next(k for k in ("call", "twice", "line", "lines") if k in c)
    a = c[which]; sp = spec(a, c["N"]); h = alone(sp, (a, c["N"])); fz = frozen(sp); oth = other_problem(sp, c["N"])
    r.sample = dict(c, problem=P[a])
    if which in ("call", "twice"):
        hook, eta, n = bomb(c["seam"], sp["eta"], -1, Boom)
        p = posed(sp); p.perturbations.hook = hook; p.solve(*eta); total = n[0]
        for at, exc, prior in itertools.product(range(1, total+1), KINDS+MORE if which == "call" else KINDS[:1], (False, True)):
            if exc in MORE and (prior or (at+MORE.index(exc)) % (1 if at == 2 else 3)): continue
            for at2 in range(1, total+1) if which == "twice" else (0,):
                p = posed(sp)
                if prior:
                    p.perturbations.hook = lambda: None
                    p.set_problem(**{k: (v.copy() if hasattr(v, "copy") else v) for k, v in oth[0]["d"].items()}); p.solve(.9, .9); p.set_problem(**sp["d"])
                for w in (at, at2) if at2 else (at,):
                    what = "%s interrupted by %s in %s at call %d%s" % (P[a], exc.__name__, c["seam"], w, " after an interruption" if w is at2 else "")
                    hook, eta, n = bomb(c["seam"], sp["eta"], w, exc)
                    p.perturbations.hook = hook
                    try: p.solve(*eta); e = "%s: the exception is swallowed" % what
                    except exc: e = None
                    e = e or records(p, prior or w is not at, h, r, True, what) or intact(p, sp, fz)
                    if e: r.bad(e, key=e[:60]); return
                r.n += 1; r.nt += 1; r.traces += 1; r.tag(which); r.states.add((a, c["seam"], at, at2, exc.__name__, prior))
                e = again(p, sp, h, r, oth if (at+at2) % 2 else None, what) or again_same(p, sp, h, r, what, (at+at2) % 2)
                if e: r.bad(e, key=e[:60]); return
        return
    total = trace(posed(sp), sp["eta"], None, None)
    if which == "line": todo = [(k,) for k in range(1+c["part"], total+1, c["of"])]
    else: todo = [(k, j) for k in range(1+c["part"], total+1, c["of"]) for j in range(1+k % 7, total+1, 7)]
    for ks in todo:
        p = posed(sp)
        for k in ks:
            what = "%s interrupted at line event %d of %d" % (P[a], k, total)
            try:
                trace(p, sp["eta"], k, BoomInterrupt); e = "%s: the interrupt is swallowed" % what
            except BoomInterrupt: e = None
            if e: r.bad(e, key=e[:60]); return
            if hasattr(p, "dQdts") and hasattr(p, "battery") and hasattr(p, "etas_bounds") and k == ks[0]:
                e = records(p, False, h, r, False, what)
                if e: r.bad(e, key=e[:60]); return
            e = intact(p, sp, fz)
            if e: r.bad(e, key=e[:60]); return
        r.n += 1; r.nt += 1; r.traces += 1; r.tag("line"); r.states.add((a, ks))
        e = again(p, sp, h, r, oth if sum(ks) % 4 == 3 else None, what)
        if e: r.bad(e, key=e[:60]); return


def again_same(p, sp, h, r, what, did_other):
    if not did_other: return
    kw = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in sp["d"].items()}
    p.set_problem(**kw)
    return again(p, sp, h, r, None, what)


def trace(p, eta, at, exc):
    """solves; raises exc at the at-th line event inside the package; returns the number of line events"""
    n = [0]
    def tr(frame, event, arg):
        if not frame.f_code.co_filename.startswith(package()): return None
        if event == "line":
            n[0] += 1
            if n[0] == at: raise exc("stop here")
        return tr
    old = sys.gettrace()
    sys.settrace(tr)
    try: p.solve(*eta)
    finally: sys.settrace(old)
    return n[0]
