"""C24: what is printed is what happened."""
import contextlib, io, itertools, re
import numpy as np
from .. import ref, features
from ..prob import build, warm_run, hist, same, wide

LEVEL = "exploration"
RULE = ("problem summaries over element set x problem x weights; every way a run can end x verbosity 0-3 x print frequency x element set x direction x stepping, the run's "
        "output and result summary parsed back and compared with the histories; settings summaries over tolerances, factors and limits; non-trivial = number compared")
BOUNDS = dict(quick="6 endings x 4 verbosities x 3 frequencies x 2 x 2 x 2; runs of up to 45 steps", thorough="6 endings x 4 verbosities x 6 frequencies x 2 x 2 x 2 x 2 integrators; runs of up to 45 steps")
RULE += features.RULE
BOUNDS = {k: v + features.AT[k] for k, v in BOUNDS.items()}
ASSUME = []
NEED = {"row": 500, "closing": 100, "result": 100, "problem": 20, "settings": 20, "silent": 20}
NUM = re.compile(r"(?<![\w.])[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)(?![\w])", re.I)
ENDS = {1: "reached", 2: "reached", -1: "mass", -2: "time", -3: "angles"}
NAMES = {"keplerian": ["a", "e", "i", "raan", "omega", "ta"], "mee_with_a": ["a", "f", "g", "h", "k", "L"]}


def cases(tier):
    q = tier == "quick"
    out = [dict(kind=k, sgn=s, sund=u, end=e, q=q) for k in NAMES for s in (1, -1) for u in (False, True) for e in ("budget", "converge", "relaxed", "tank", "undefined", "short")]
    out += [dict(long=k, N=N, freq=f, integ=i, q=q) for k, N, f, i in (("mee_with_a", 1300, 100, "rkf45"), ("keplerian", 2500, 333, "rk4"), ("mee_with_a", 10100, 1000, "rk4"))]
    return out + [dict(problem=k) for k in NAMES] + features.cases(tier, per=8, t=3 if q else 4, long=False)


def warm(): warm_run()


def said(f, *a, **k):
    o = io.StringIO()
    with contextlib.redirect_stdout(o): f(*a, **k)
    return o.getvalue()


def nums(s): return [float(z) for z in NUM.findall(s)]


def near(a, b, digits=4): return a == b or (np.isnan(a) and np.isnan(b)) or abs(a-b) <= .51*10.0**-digits*10.0**np.floor(np.log10(max(abs(b), 1e-300)))*1.001+1e-15*abs(b)


def close(got, want, digits=4): return len(got) == len(want) and all(near(a, b, digits) for a, b in zip(got, want))


def lines_of(out): return [l for l in out.splitlines() if l.strip()]


def during(p, out, verb, freq, r):
    """output of solve() against the histories; returns a message or None"""
    L = lines_of(out); n = len(p.times)-1
    if verb == 0:
        r.tag("silent")
        return "a silent run prints %r" % out[:200] if L else None
    rows = [l for l in L if l.count("|") >= 7 and len(nums(l)) >= 8]
    heads = [l for l in L if l.count("|") >= 7 and len(nums(l)) < 8]
    rest = [l for l in L if l not in rows and l not in heads]
    r.tag("closing"); r.n += 1
    if len(rest) != 1 or ENDS[p.exitcode] not in rest[0].lower() or any(w in rest[0].lower() for w in set(ENDS.values())-{ENDS[p.exitcode]}):
        return "a run that ended with code %d says %r" % (p.exitcode, rest)
    if verb < 2:
        return "progress %r printed at verbosity %d" % (rows[:2], verb) if rows or heads else None
    last = n-1 if p.exitcode in (1, 2) else n                 # the arriving step is not progress
    want = [j for j in range(last) if j % freq == 0]
    if len(rows) != len(want): return "%d progress rows for %d steps at frequency %d" % (len(rows), n, freq)
    if rows and not heads: return "progress without a heading"
    for j, l in zip(want, rows):
        x = np.array(p.states[j+1], float); g = nums(l)
        r.tag("row"); r.n += 1; r.nt += 1
        w = [j, p.times[j+1]] + list(x[:5]-np.array(p.oeT, float)[:5]) + [x[5]]
        if len(g) != 8 or g[0] != j or not near(g[1], w[1], 3) or not all(near(a, b) for a, b in zip(g[2:], w[2:])): return "progress row %r, recorded are %s" % (l, w)


def summary(p, kind, oeT, r):
    L = lines_of(said(p.pretty_results)); r.n += 1; r.tag("result")
    x = np.array(p.states[-1], float)
    def val(word): return [l.split(":", 1)[1].strip() for l in L if l.lower().startswith(word)]
    if val("exit code") != [str(p.exitcode)] or val("converge") != [str(bool(p.converge))]: return "result summary says %r, code %s, flag %s" % (L, p.exitcode, p.converge)
    if p.exitcode in (1, 2) and val("converge") != ["True"]: return "result summary denies convergence"
    for j, nm in enumerate(NAMES[kind][:5]):
        row = [l for l in L if re.match(r"\s+%s\s*:" % nm, l)]
        r.nt += 1
        if len(row) != 1 or not close(nums(row[0].split(":", 1)[1]), [x[j], abs(x[j]-oeT[j])]): return "result summary of %s is %r, recorded %s with error %s" % (nm, row, x[j], abs(x[j]-oeT[j]))
    for word, v in (("transfer time", p.times[-1]), ("final mass", p.masses[-1])):
        s = val(word)
        if len(s) != 1 or not close(nums(s[0]), [float(v)], 9): return "%s printed as %r, recorded %r" % (word, s, v)


def problem(p, kind, x0, xT, woe, r):
    L = lines_of(said(p.pretty)); r.n += 1; r.tag("problem")
    for j, nm in enumerate(NAMES[kind][:5]):
        row = [l for l in L if re.match(r"\s+%s\s*:" % nm, l)]
        g = nums(row[0].split(":", 1)[1]) if len(row) == 1 else []
        r.nt += 1
        if len(g) != 3 or not close(g[:2], [x0[j], xT[j]]) or abs(g[2]-woe[j]) > .00501: return "problem summary of %s is %r, posed were %s -> %s, weight %s" % (nm, row, x0[j], xT[j], woe[j])


def settings(p, kind, integ, tol, fac, lim, r):
    L = lines_of(said(p.pretty_settings)); r.n += 1; r.tag("settings")
    t = "\n".join(L)
    def val(word):
        m = re.search(r"^%s\s*:(.*(?:\n(?![A-Z]).*)*)" % word, t, re.M | re.I)
        return m.group(1).strip() if m else ""
    if val("element type") != kind or val("integrator") != integ: return "settings summary names %r, %r" % (val("element type"), val("integrator"))
    if re.findall(r"\w+", val("element names")) != NAMES[kind]: return "settings summary names elements %r" % val("element names")
    for word, v in (("tolerance", np.array(tol)), ("relaxed tolerance", fac*np.array(tol))):
        g = np.array(nums(val(word)))
        r.nt += 1
        if len(g) != 5 or not np.allclose(g, v, rtol=1e-6, atol=max(6e-9, 1e-8*max(v))): return "%s printed as %r, in force is %s" % (word, val(word), v)
    if nums(val("exit at relaxed")) != [lim]: return "relaxed limit printed as %r, in force is %s" % (val("exit at relaxed"), lim)


def told(R, r):
    """a run of the covering array with what it prints"""
    p = R.p
    out = said(lambda: (p.set_problem(**R.d), p.solve(*R.etas)))
    h = hist(p)
    for e in (during(p, out, R.f["verb"], 3, r), summary(p, R.kind, R.xT, r), problem(p, R.kind, R.x0, R.xT, R.woe, r), settings(p, R.kind, R.f["integ"], R.tol, R.fac, R.relaxed, r)):
        if e: return e
    if same(hist(p), h): return "printing changed the histories"


def run_case(c, r):
    if "feat" in c: return features.play(c, r, told)
    if "problem" in c: return posed(c["problem"], r)
    if "long" in c: return longrun(c, r)
    kind, s = c["kind"], c["sgn"]
    k0 = [1.2, .2, .6, 2.4, 3.9, 1.1]; kT = [1.6, .1, .8, -1.1, 3.0, 0]
    x0, xT = ref.to_kind(kind, k0), ref.to_kind(kind, kT)[:5]
    dt = .07*s
    for verb, freq in itertools.product((0, 1, 2, 3), (1, 2, 7) if c["q"] else (1, 2, 3, 5, 7, 20)):
        for integ in (("rk4",) if c["q"] and freq != 2 else ("rk4", "rkf45")):
            N = 45; tol = np.full(5, 1e-9); kw = dict(relaxed_tol_factor=4, exit_at_relaxed=10**4); pk = {}
            mdot, mmin = 0.0, .1
            if c["end"] in ("converge", "relaxed"):
                b = build(kind, integrator=integ, use_sundman=c["sund"], tol_oe=tol, **wide(kind))
                b.set_problem(x0, xT, 2.0, .02, 0.0, dt*1000, dt); b.tf_max = dt*40; b.solve()
                K = min(33, len(b.states)-1); d = np.abs(np.array(b.states[K], float)[:5]-xT)
                if kind == "keplerian": d[3:] = np.abs(ref.angdiff(np.array(b.states[K], float)[3:5], xT[3:]))
                tol = d*(1+1e-6)/(1.0 if c["end"] == "converge" else 4.0)
                if c["end"] == "relaxed": kw["exit_at_relaxed"] = 1
            if c["end"] == "tank": mdot = .004*s/abs(dt); mmin = 2.0-.004*30.5*(1 if not c["sund"] else .8)
            if c["end"] == "undefined": pk = dict(k_petro=1e6, rpmin=5.0)
            if c["end"] == "short": N = 1.5
            p = build(kind, integrator=integ, use_sundman=c["sund"], verbosity=verb, print_frequency=freq, tol_oe=tol, nan_angles_threshold=24, **kw, **pk, **wide(kind))
            tf = dt*(N-.5)
            p.set_problem(x0, xT, 2.0, .02, mdot, tf, dt, mass_min=mmin)
            out = said(p.solve)
            r.tag("exit%d" % p.exitcode)
            for e in (during(p, out, verb, freq, r), summary(p, kind, xT, r), problem(p, kind, x0, xT, [1]*5, r), settings(p, kind, integ, tol, 4, kw["exit_at_relaxed"], r)):
                if e: r.bad(e, key=e[:40], verbosity=verb, frequency=freq, integrator=integ, exit=p.exitcode, printed=out[-1500:]); return
    r.sample = dict(kind=kind, ending=c["end"], exit=p.exitcode, printed=out[-200:])


def longrun(c, r):
    kind = c["long"]; x0, xT = ref.to_kind(kind, [1.2, .2, .6, 2.4, 3.9, 1.1]), ref.to_kind(kind, [1.6, .1, .8, -1.1, 3.0, 0])[:5]
    p = build(kind, integrator=c["integ"], verbosity=2, print_frequency=c["freq"], **wide(kind))
    p.set_problem(x0, xT, 2.0, 1e-5, 1e-6, .1*(c["N"]-.5), .1); p.verbosity = 2
    out = said(p.solve)
    e = during(p, out, 2, c["freq"], r) or summary(p, kind, xT, r)
    if e: r.bad(e, key=e[:40], steps=len(p.times)-1)
    r.sample = dict(c, steps=len(p.times)-1)


def posed(kind, r):
    n = 0
    for a, e, i, O, w, th in itertools.product((.02, 1.0, 42164.0), (.001, .7), (.01, 2.9), (.2, -3.0, 6.2), (0.0, 5.0), (0.0, -40.0)):
        for woe, tol, fac, lim in (([1, 1, 1, 1, 1], [1e-3]*5, 1, 100), ([.25, 0, 12.5, 3, 1e-3], [1e-5, 2e-4, 3e-3, .04, .5], 2.5, 1), ((0, 0, 0, 0, 7), np.array([.1, 2e-2, 3e-2, 4e-2, 5e-2]), 10, 37)):
            for integ in ("rk4", "rkf45"):
                n += 1
                if n % 5: continue
                x0 = ref.to_kind(kind, [a, e, i, O, w, th]); xT = ref.to_kind(kind, [a*1.7, e*.9, i+.1, O-2-6*(n % 3), w+3+5*(n % 4), 0])
                p = build(kind, integrator=integ, tol_oe=tol, relaxed_tol_factor=fac, exit_at_relaxed=lim)
                p.set_problem(x0, xT[:5+n % 2], 2.0, .1, .01, woe=woe)
                e_ = problem(p, kind, x0, xT, woe, r)                    # posed, not yet solved
                if e_: r.bad(e_, key="fresh"+e_[:30], problem=[x0, xT]); return
                p.verbosity = 0; p.tf_max = .3*a**1.5; p.t_step = .1*a**1.5; p.solve()
                for e_ in (problem(p, kind, x0, xT, woe, r), summary(p, kind, xT, r), settings(p, kind, integ, tol, fac, lim, r)):
                    if e_: r.bad(e_, key=e_[:40]); return
                y0, yT = ref.to_kind(kind, [a*1.3, e*.8+.01, i+.02, O+.5, w-.5, th+1]), np.array(xT)*1.01
                p.set_problem(y0, yT, 2.0, .1, .01, woe=woe[::-1])       # the next problem, before it is solved
                e_ = problem(p, kind, y0, yT, woe[::-1], r)
                if e_: r.bad(e_, key="next"+e_[:30], problem=[y0, yT]); return
    r.sample = dict(kind=kind, initial=x0, target=xT, weights=woe)
