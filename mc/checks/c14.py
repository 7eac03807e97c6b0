"""C14: order of the integrators, by rooted trees."""
import itertools
import numpy as np
from numba import njit
import pyqlaw
from .. import ref

LEVEL = "exploration"
RULE = ("every rooted tree with up to 5 nodes as a polynomial initial value problem whose one-step result is exactly the elementary weight of "
        "the tree (hence every order condition for arbitrary right-hand sides), every monomial quadrature, every combination with start time, "
        "start value, step sign and size; non-trivial = the tree's component is non-zero")
BOUNDS = "all 17 rooted trees with at most 5 nodes, monomials to degree 4, 8 steps of both signs, 3 start times, 3 problem sizes; 3 nonlinear problems; step suggestion for all 121 patterns of component errors in 1, 2, 3 and 6 dimensions, compared pairwise"
ASSUME = []
NEED = dict(tree=100, quadrature=50, suggestion=50)
STEPS = [1.0, -1.0, .5, -.5, 2.0, -.25, .125, -3.0]


@njit
def tree_rhs(t, y, p):
    # y_i' = amp_i * product of the children of i (y starts at zero)
    C, amp = p
    n = len(y)
    out = np.zeros(n)
    for i in range(n):
        v = amp[i]
        for j in range(n):
            if C[i, j] != 0: v = v*y[j]
        out[i] = v
    return out


@njit
def mono_rhs(t, y, p):
    k, t0 = p
    out = np.zeros(len(y))
    for i in range(len(y)): out[i] = (i+1)*(t-t0)**k
    return out


@njit
def quart_rhs(t, y, p):
    return p*t**4


@njit
def nonlin_rhs(t, y, p):
    w, c = p
    return np.array([y[1] + c*np.sin(w*t), -w*w*np.sin(y[0]) + .1*y[1]*y[2], np.cos(t)*y[2] - y[0]*y[0]*c])


@njit
def const_rhs(t, y, p):
    return np.array([p, -2*p, 0.0])


def trees(n):
    """all rooted trees with n nodes as sorted nested tuples"""
    if n == 1: return [()]
    out = set()
    def forests(m, maxsize):
        if m == 0: yield (); return
        for s in range(min(m, maxsize), 0, -1):
            for t in trees(s):
                for f in forests(m-s, s):
                    yield tuple(sorted((t,)+f))
    for f in forests(n-1, n-1): out.add(f)
    return sorted(out)


def mat(t):
    C = []
    def go(t):
        i = len(C); C.append([])
        for c in t: C[i].append(go(c))
        return i
    go(t)
    M = np.zeros((len(C), len(C)))
    for i, cs in enumerate(C):
        for j in cs: M[i, j] = 1
    return M


def size(t): return 1 + sum(size(c) for c in t)


def gamma(t):
    g = size(t)
    for c in t: g *= gamma(c)
    return g


def cases(tier):
    out = [dict(k="tree", n=n, idx=j) for n in range(1, 6) for j in range(len(trees(n)))]
    out += [dict(k="quad", d=d) for d in range(5)] + [dict(k="nonlin", j=j) for j in range(3)] + [dict(k="sugg"), dict(k="const")] + [dict(k="norm", h=h) for h in STEPS]
    return out


def warm():
    M = mat(((),)); amp = np.ones(2)
    pyqlaw.rk4(tree_rhs, 0.0, 1.0, np.zeros(2), (M, amp)); pyqlaw.rkf45(tree_rhs, 0.0, 1.0, np.zeros(2), (M, amp), 1e-6)


def step(m, rhs, t, h, y, p, tol=1e-6):
    Y = y.copy()
    if m == "rk4": z, hn = pyqlaw.rk4(rhs, t, h, y, p), None
    else: z, hn = pyqlaw.rkf45(rhs, t, h, y, p, tol)
    assert np.array_equal(Y, y), "integrator modified its argument"
    return z, hn


def run_case(c, r):
    globals()["k_" + c["k"]](c, r)


def k_tree(c, r):
    t = trees(c["n"])[c["idx"]]; n = c["n"]
    M = mat(t)
    for m in ("rk4", "rkf45"):
        for h, t0, A in itertools.product(STEPS, (0.0, 1.5, -2.0), (1.0, .5, -2.0)):
            amp = np.ones(n); amp[0] = A
            y, hn = step(m, tree_rhs, t0, h, np.zeros(n), (M, amp))
            exact = A*h**n/gamma(t)
            r.n += 1; r.nt += 1; r.tag("tree")
            if n <= 4 and abs(y[0]-exact) > 1e-12*abs(exact)*2**n:
                r.bad("%s violates the order condition of tree %s" % (m, t), key="%s order" % m, h=h, t0=t0, got=y[0], want=exact); return
            if n == 5 and not np.isfinite(y[0]): r.bad("%s not finite" % m, key="finite")
            if hn is not None and not (np.isfinite(hn) and hn*h > 0): r.bad("suggested step is not finite or changes sign", key="suggestion", h=h, hn=hn); return
    r.sample = dict(tree=str(t), density=gamma(t))


def k_quad(c, r):
    d = c["d"]
    for m in ("rk4", "rkf45"):
        for h, t0, n in itertools.product(STEPS, (0.0, 1.5, -2.0), (1, 3, 6)):
            y0 = np.arange(1.0, n+1)
            y, hn = step(m, mono_rhs, t0, h, y0, (float(d), t0))
            exact = y0 + np.arange(1.0, n+1)*h**(d+1)/(d+1)
            r.n += 1; r.nt += 1; r.tag("quadrature")
            if d <= 3 and np.abs(y-exact).max() > 1e-12*max(1, abs(h)**(d+1))*n*4:
                r.bad("%s does not integrate t^%d exactly" % (m, d), key="%s quadrature" % m, h=h, t0=t0, got=y, want=exact); return
            if hn is not None and not (np.isfinite(hn) and hn*h > 0): r.bad("suggested step is not finite or changes sign", key="suggestion", h=h, hn=hn); return


def k_nonlin(c, r):
    from scipy.integrate import solve_ivp
    p = [(1.0, .3), (2.0, -.5), (.5, 1.0)][c["j"]]
    for m in ("rk4", "rkf45"):
        for t0, y0 in itertools.product((0.0, 2.2), ([.3, .2, 1.0], [-1.0, .5, -.4])):
            y0 = np.array(y0)
            for sg in (1, -1):
                errs = []
                for h in (.2, .1, .05, .025):
                    ex = solve_ivp(lambda t, y: nonlin_rhs.py_func(t, y, p), (t0, t0+sg*h), y0, method="DOP853", rtol=1e-13, atol=1e-14).y[:, -1]
                    y, hn = step(m, nonlin_rhs, t0, sg*h, y0, p)
                    errs.append(np.linalg.norm(y-ex))
                    r.n += 1; r.nt += 1
                    if errs[-1] > 3*h**5*8: r.bad("%s local error is not of fifth order" % m, key="%s nonlinear" % m, h=sg*h, err=errs[-1])


def k_sugg(c, r):
    """suggestion scales with the fourth root of tolerance over error, and sees the true local error"""
    ratio = []
    for t in trees(5):
        M = mat(t)
        for h in (.5, -.5, 1.0):
            base = None
            for A in (1.0, 16.0, 256.0, 1/16.):
                amp = np.ones(5); amp[0] = A
                for tol in (1e-6, 1.6e-5, 1e-8):
                    y, hn = step("rkf45", tree_rhs, 0.0, h, np.zeros(5), (M, amp), tol)
                    err = abs(A*h**5/gamma(t) - y[0])
                    if err < 1e-12: continue
                    r.n += 1; r.nt += 1; r.tag("suggestion")
                    s = hn/h*(A/tol)**.25
                    if base is None: base = s
                    if not (np.isfinite(hn) and hn*h > 0): r.bad("suggested step is not finite or changes sign", key="suggestion"); return
                    if abs(s/base-1) > 1e-6: r.bad("suggested step does not scale with the fourth root of tolerance over error", key="suggestion", got=s, want=base, A=A, tol=tol, h=h); return
                    ratio.append(hn/h*(err/tol)**.25)
    if ratio and max(ratio)/min(ratio)-1 > 1e-6: r.bad("suggested step does not reflect the local error of the step", key="suggestion", ratio=[min(ratio), max(ratio)])


def k_const(c, r):
    for v, h in itertools.product((0.0, 1.0, -3.0), STEPS):
        for m in ("rk4", "rkf45"):
            y, hn = step(m, const_rhs, 0.0, h, np.array([1.0, 2.0, 3.0]), v)
            r.n += 1; r.nt += 1
            if np.abs(y-np.array([1+v*h, 2-2*v*h, 3.0])).max() > 1e-13*10: r.bad("constant rate is not integrated exactly", key=m)
            if hn is not None and not (np.isfinite(hn) and hn*h > 0): r.bad("suggested step is not finite or changes sign when the error vanishes", key="suggestion", h=h, hn=hn)



def k_norm(c, r):
    """the suggestion for systems: the errors of the components count whatever their signs and wherever they are"""
    h = c["h"]
    V = [np.array(v, float) for n in (1, 2, 3, 6) for v in itertools.product((0.0, 1.0, -1.0, .25, -3.0) if n < 3 else (0.0, 1.0, -2.0) if n == 3 else (1.0, -1.0), repeat=n)]
    S = {}
    for n, v in enumerate(V):
        y, hn = step("rkf45", quart_rhs, 0.0, h, np.zeros(len(v)), v*1e-3)
        r.n += 1; r.nt += 1; r.tag("norm")
        if not (np.isfinite(hn) and hn*h > 0): r.bad("suggested step is not finite or changes sign", key="suggestion", h=h, hn=hn, amplitudes=v); return
        S[n] = hn/h
        for tol, k in ((1e-6, 16.0), (1.6e-5, 1.0), (1e-8, 81.0)):
            y, hk = step("rkf45", quart_rhs, 0.0, h, np.zeros(len(v)), v*1e-3*k, tol)
            if np.any(v != 0) and abs(hk/hn*(k*1e-6/tol)**.25-1) > 1e-6: r.bad("suggested step does not scale with the fourth root of tolerance over error", key="suggestion", amplitudes=v, factor=k, tol=tol, got=(hn, hk)); return
    for a, b in itertools.product(S, S):
        if len(V[a]) != len(V[b]): continue
        if np.all(np.abs(V[a]) >= np.abs(V[b])) and S[a] > S[b]*(1+1e-9): r.bad("a larger local error gives a larger suggested step", key="suggestion", larger=V[a], smaller=V[b], suggestions=(S[a], S[b])); return
    r.sample = dict(step=h, amplitude_vectors=len(V))
