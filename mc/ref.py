"""Independent reference: two-body mechanics, Gauss's equations from first principles, the documented quotient.

Nothing here is shared with pyqlaw. Everything is written for complex arguments too, so that derivatives are taken by
complex step (exact to round-off).
"""
import itertools
import numpy as np

TAU = 2*np.pi
H = 1e-30


def csqrt(x): return np.sqrt(x + 0j) if np.iscomplexobj(np.asarray(x)) else np.sqrt(x)


def catan2(y, x):
    y = complex(y); x = complex(x)
    return np.arctan2(y.real, x.real) + 1j*(x.real*y.imag - y.real*x.imag)/(x.real**2 + y.real**2)


def dot(a, b): return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]


def cross(a, b):
    return np.array([a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]])


def norm(a): return np.sqrt(dot(a, a))


def angdiff(a, b):
    """smallest difference a-b in (-pi, pi]"""
    d = (np.asarray(a) - np.asarray(b)) % TAU
    return np.where(d > np.pi, d - TAU, d)


# ---------------------------------------------------------------- elements to Cartesian
def kep2rv(kep, mu):
    a, e, i, O, w, th = kep
    P = np.array([np.cos(O)*np.cos(w)-np.sin(O)*np.sin(w)*np.cos(i), np.sin(O)*np.cos(w)+np.cos(O)*np.sin(w)*np.cos(i), np.sin(w)*np.sin(i)])
    Qv = np.array([-np.cos(O)*np.sin(w)-np.sin(O)*np.cos(w)*np.cos(i), -np.sin(O)*np.sin(w)+np.cos(O)*np.cos(w)*np.cos(i), np.cos(w)*np.sin(i)])
    p = a*(1-e*e)
    r = p/(1+e*np.cos(th))
    v = np.sqrt(mu/p)
    return np.concatenate((r*(np.cos(th)*P + np.sin(th)*Qv), v*(-np.sin(th)*P + (e+np.cos(th))*Qv)))


def eq_basis(h, k):
    s2 = 1 + h*h + k*k
    F = np.array([1+h*h-k*k, 2*h*k, -2*k])/s2
    G = np.array([2*h*k, 1-h*h+k*k, 2*h])/s2
    W = np.array([2*k, -2*h, 1-h*h-k*k])/s2
    return F, G, W


def mee2rv(mee, mu):
    p, f, g, h, k, L = mee
    F, G, W = eq_basis(h, k)
    w = 1 + f*np.cos(L) + g*np.sin(L)
    r = p/w
    v = np.sqrt(mu/p)
    return np.concatenate((r*(np.cos(L)*F + np.sin(L)*G), v*(-(np.sin(L)+g)*F + (np.cos(L)+f)*G)))


def meea2rv(x, mu):
    a, f, g, h, k, L = x
    return mee2rv((a*(1-f*f-g*g), f, g, h, k, L), mu)


# ---------------------------------------------------------------- Cartesian to elements (complex-safe)
def rv2mee(rv, mu, with_a=False):
    r, v = rv[:3], rv[3:]
    hv = cross(r, v); hn = norm(hv); W = hv/hn
    k = W[0]/(1+W[2]); h = -W[1]/(1+W[2])
    F, G, _ = eq_basis(h, k)
    ev = cross(v, hv)/mu - r/norm(r)
    f, g = dot(ev, F), dot(ev, G)
    L = catan2(dot(r, G), dot(r, F))
    a = 1/(2/norm(r) - dot(v, v)/mu)
    return np.array([a if with_a else hn*hn/mu, f, g, h, k, L])


def rv2kep(rv, mu):
    r, v = rv[:3], rv[3:]
    hv = cross(r, v); hn = norm(hv)
    ev = cross(v, hv)/mu - r/norm(r)
    e = norm(ev)
    n = np.array([-hv[1], hv[0], 0*hv[0]])
    nn = norm(n)
    i = catan2(nn, hv[2])
    O = catan2(n[1], n[0])
    nh = n/nn
    m = cross(hv/hn, nh)
    w = catan2(dot(ev, m), dot(ev, nh))
    eh = ev/e
    q = cross(hv/hn, eh)
    th = catan2(dot(r, q), dot(r, eh))
    a = 1/(2/norm(r) - dot(v, v)/mu)
    return np.array([a, e, i, O, w, th])


def rtn(rv):
    r, v = np.real(rv[:3]), np.real(rv[3:])
    R = r/norm(r); N = cross(r, v); N = N/norm(N); T = cross(N, R)
    return np.array([R, T, N])


CONV = {
    "keplerian": (kep2rv, rv2kep),
    "mee_with_a": (meea2rv, lambda rv, mu: rv2mee(rv, mu, True)),
    "mee": (mee2rv, lambda rv, mu: rv2mee(rv, mu, False)),
}


def gauss(kind, x, mu):
    """(B, D): d(elements)/dt = B @ acc_RTN + D, from Newton's law by differentiating the elements of the state."""
    to, fro = CONV[kind]
    rv = to(np.asarray(x, float), mu)
    A = rtn(rv)
    B = np.zeros((6, 3))
    for j in range(3):
        z = rv.astype(complex); z[3:] += 1j*H*A[j]
        B[:, j] = np.imag(fro(z, mu))/H
    z = rv.astype(complex)
    z[:3] += 1j*H*rv[3:]; z[3:] += 1j*H*(-mu*rv[:3]/norm(rv[:3])**3)
    D = np.imag(fro(z, mu))/H
    D[:5] = 0.0
    return B, D


# ---------------------------------------------------------------- two-body time of flight
def elem2kep(kind, x):
    """(a, e, theta) of a state in any element set"""
    if kind == "keplerian": return x[0], x[1], x[5]
    f, g = x[1], x[2]
    e = np.hypot(f, g)
    a = x[0] if kind == "mee_with_a" else x[0]/(1-e*e)
    return a, e, x[5] - np.arctan2(g, f)


def ta2E(th, e):
    """eccentric anomaly on the same revolution as the true anomaly"""
    k = np.round(th/TAU)
    t = th - k*TAU
    return np.arctan2(np.sqrt(1-e*e)*np.sin(t), e+np.cos(t)) + k*TAU


def E2ta(E, e):
    k = np.round(E/TAU)
    t = E - k*TAU
    return np.arctan2(np.sqrt(1-e*e)*np.sin(t), np.cos(t)-e) + k*TAU


def kepler_E(M, e):
    k = np.round(M/TAU); m = M - k*TAU
    E = m + e*np.sin(m)
    lo, hi = -np.pi - 1e-9, np.pi + 1e-9
    for _ in range(200):
        f = E - e*np.sin(E) - m
        if f > 0: hi = E
        else: lo = E
        d = f/(1-e*np.cos(E))
        En = E - d
        if not (lo <= En <= hi): En = 0.5*(lo+hi)
        if abs(En-E) < 1e-16*max(1, abs(E)): E = En; break
        E = En
    return E + k*TAU


def coast(kind, x, mu, dt):
    """exact two-body advance of the fast angle"""
    a, e, th = elem2kep(kind, x)
    E0 = ta2E(th, e)
    M = E0 - e*np.sin(E0) + np.sqrt(mu/a**3)*dt
    th1 = E2ta(kepler_E(M, e), e)
    y = np.array(x, float)
    y[5] = x[5] + (th1 - th)
    return y


# ---------------------------------------------------------------- documented quotient
class Par(dict):
    __getattr__ = dict.__getitem__


DEFPAR = dict(rpmin=0.1, m=3.0, n=4.0, r=2.0, b=0.01, k=1.0, wp=1.0)


def rates(kind, x, mu, acc, b):
    """documented maximum rates of the five slow elements"""
    a = x[0]
    if kind == "keplerian":
        e, i, w = x[1], x[2], x[4]
        p = a*(1-e*e); h = csqrt(mu*p)
        ax = 2*acc*csqrt(a**3*(1+e)/(mu*(1-e)))
        ex = 2*p*acc/h
        absx = lambda z: z if np.real(z) >= 0 else -z
        ix = p*acc/(h*(csqrt(1-e*e*np.sin(w)**2) - e*absx(np.cos(w))))
        Ox = p*acc/(h*np.sin(i)*(csqrt(1-e*e*np.cos(w)**2) - e*absx(np.sin(w))))
        A = (1-e*e)/(2*e**3); s = csqrt(A*A + 1.0/27.0)
        # second root through the product of the cube roots (A+s)(s-A) = 1/27, avoids cancellation
        t1 = (A+s)**(1.0/3.0); t2 = (1.0/27.0/(A+s))**(1.0/3.0)
        c = t1 - t2 - 1/e
        rr = p/(1+e*c)
        wi = acc/(e*h)*csqrt(p*p*c*c + (p+rr)**2*(1-c*c))
        wo = Ox*absx(np.cos(i))
        return np.array([ax, ex, ix, Ox, (wi + b*wo)/(1+b)])
    f, g, h, k = x[1:5]
    e = csqrt(f*f+g*g)
    q = csqrt(a*(1-e*e)/mu)
    s2 = 1+h*h+k*k
    return np.array([2*acc*a*csqrt(a/mu)*csqrt((1+e)/(1-e)), 2*acc*q, 2*acc*q,
                     0.5*acc*q*s2/(csqrt(1-g*g)+f), 0.5*acc*q*s2/(csqrt(1-f*f)+g)])


def quotient(kind, x, xT, woe, mu, acc, par):
    P = Par(par)
    a = x[0]
    e = x[1] if kind == "keplerian" else csqrt(x[1]*x[1]+x[2]*x[2])
    d = np.array([x[j]-xT[j] for j in range(5)])
    if kind == "keplerian":
        for j in (3, 4):
            d[j] = d[j] - TAU*np.round(np.real(d[j])/TAU)
    R = rates(kind, x, mu, acc, P.b)
    absd = d[0] if np.real(d[0]) >= 0 else -d[0]
    S = [(1+(absd/(P.m*xT[0]))**P.n)**(1/P.r), 1, 1, 1, 1]
    pen = np.exp(P.k*(1-a*(1-e)/P.rpmin))
    tot = 0
    for j in range(5):
        if woe[j] != 0: tot = tot + woe[j]*S[j]*(d[j]/R[j])**2
    return (1+P.wp*pen)*tot


def grad(kind, x, xT, woe, mu, acc, par):
    g = np.zeros(5)
    for j in range(5):
        z = np.array(x, complex); z[j] += 1j*H
        g[j] = np.imag(quotient(kind, z, xT, woe, mu, acc, par))/H
    return g


def steer(kind, x, xT, woe, mu, acc, par, B=None, g=None):
    """(unit direction of steepest descent in RTN, magnitude of the rate of Q, cosine-free strength vector)"""
    if B is None: B, _ = gauss(kind, x, mu)
    if g is None: g = grad(kind, x, xT, woe, mu, acc, par)
    D = B[:5].T @ g
    n = np.linalg.norm(D)
    return (-D/n if n > 0 else D), acc*n, D


def angles_of(u):
    return np.arctan2(u[0], u[1]), np.arctan2(u[2], np.hypot(u[0], u[1]))


def dir_of(alpha, beta):
    return np.array([np.cos(beta)*np.sin(alpha), np.cos(beta)*np.cos(alpha), np.sin(beta)])


# ---------------------------------------------------------------- fast elements of lattices
def kep2meea(k):
    a, e, i, O, w, th = k
    t = np.tan(i/2)
    return np.array([a, e*np.cos(O+w), e*np.sin(O+w), t*np.cos(O), t*np.sin(O), O+w+th])


def to_kind(kind, kep):
    kep = np.asarray(kep, float)
    return kep.copy() if kind == "keplerian" else kep2meea(kep)


def grid(**menus):
    names = list(menus)
    for vals in itertools.product(*[menus[n] for n in names]):
        yield dict(zip(names, vals))


# ---------------------------------------------------------------- Newtonian propagation with RTN acceleration held
def newton(rv0, mu, acc_rtn, dt, n=64):
    """RK4 in Cartesian coordinates with many sub-steps; acc_rtn constant in the rotating frame"""
    acc_rtn = np.asarray(acc_rtn, float)
    def f(y):
        r = y[:3]
        return np.concatenate((y[3:], -mu*r/norm(r)**3 + acc_rtn @ rtn(y)))
    y = np.array(rv0, float); h = dt/n
    for _ in range(n):
        k1 = f(y); k2 = f(y+h/2*k1); k3 = f(y+h/2*k2); k4 = f(y+h*k3)
        y = y + h/6*(k1+2*k2+2*k3+k4)
    return y
