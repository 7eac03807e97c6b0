"""C16: perturbing accelerations, with real SPICE on kernels written for the purpose."""
import itertools, os
import numpy as np
import spiceypy as spice
import pyqlaw
from pyqlaw import _perturbations as P_
from .. import ref

LEVEL = "exploration"
RULE = ("(1) every subset of terms (J2, radiation, third bodies incl. none, given or looked-up masses) x units x frame x epoch x orbit x element set on real "
        "SPICE kernels with closed-form ephemerides, against an independent sum of the enabled terms; (2) each acceleration function on a lattice of "
        "geometries against Newton's law in extended precision, the complex-step gradient of the J2 potential, and the inverse-square law; non-trivial "
        "= non-zero acceleration")
BOUNDS = dict(quick="6 body lists x 2 x 2 flags x 2 unit systems x 2 frames x 4 epochs x 6 orbits x 2 element sets (lattice thinned by 3); 20 settings about two other bodies; every ordered pair of 3 orbits at 12 time differences on one object; functions: 3 x 6 x 6 x 8 geometries",
              thorough="6 body lists x 2 x 2 flags x 3 unit systems x 2 frames x 7 epochs x 16 orbits x 2 element sets; 20 settings about two other bodies; every ordered pair of 3 orbits at 12 time differences on one object; functions: 6 x 10 x 10 x 14 geometries")
ASSUME = ["third bodies do not coincide with spacecraft or primary"]
NEED = {"none": 10, "third": 200, "J2": 200, "SRP": 200}
PAIRS = [0.0, 1e-6, .02, 1.0, 31.0, 61.0, 400.0, 3700.0, 90000.0, -.02, -31.0, -3700.0]      # seconds between queries of one object
GM = {"399": 398600.435436, "301": 4902.800066, "10": 132712440041.93938, "5": 126712764.1}
AU = 149597870.7
ET0 = 6.0e8
SPAN = 4.0e7
# position [km] = c0 + c1 s + c2 s^2 + c3 s^3, s = (et - ET0)/1e7
POLY = {"301": np.array([[250e3, -280e3, 60e3], [190e3, 150e3, -90e3], [-20e3, 30e3, 25e3], [3e3, -2e3, 5e3]]),
        "10": np.array([[-.7*AU, .65*AU, .27*AU], [.2*AU, -.13*AU, .06*AU], [.03*AU, .04*AU, -.01*AU], [.002*AU, -.004*AU, .003*AU]]),
        "5": np.array([[3.1*AU, -4.0*AU, .4*AU], [.3*AU, .2*AU, -.05*AU], [.01*AU, 0.0, .02*AU], [0.0, .003*AU, 0.0]])}
POLE = (30.0, 60.0)      # right ascension and declination of the principal axis at J2000
RATE = (7000.0, -3000.0)   # and their rates in degrees per century: over these epochs the axis moves
PM = (10.0, 360.9856235)
OBL = np.deg2rad(84381.448/3600)
_ready = [0]


def pos(body, et, obs="399"):
    if obs != "399": return pos(body, et)-pos(obs, et)
    if body == "399": return np.zeros(3)
    s = (et-ET0)/1e7; c = POLY[body]
    return c[0]+s*(c[1]+s*(c[2]+s*c[3]))


def write_spk(path):
    h = spice.spkopn(path, "PYQLAW", 0)
    step = 4.0e5
    n = int(2*SPAN/step)+1
    t = ET0-SPAN+step*np.arange(n)
    for b in POLY:
        s = (t-ET0)/1e7; c = POLY[b]
        pv = np.array([np.concatenate((c[0]+x*(c[1]+x*(c[2]+x*c[3])), (c[1]+x*(2*c[2]+3*x*c[3]))/1e7)) for x in s])
        spice.spkw08(h, int(b), 399, "J2000", t[0], t[-1], "body "+b, 7, n, pv, t[0], step)
    spice.spkcls(h)


def kernels():
    if _ready[0] == os.getpid(): return
    f = os.path.join(os.environ["VERIF_SCRATCH"], "k%d.bsp" % os.getpid())
    spice.kclear()
    write_spk(f)
    spice.furnsh(f)
    for b, g in GM.items(): spice.pdpool("BODY%s_GM" % b, [g])
    spice.pdpool("BODY399_POLE_RA", [POLE[0], RATE[0], 0.0]); spice.pdpool("BODY399_POLE_DEC", [POLE[1], RATE[1], 0.0]); spice.pdpool("BODY399_PM", [PM[0], PM[1], 0.0])
    for b, f in (("301", -1.0), ("5", 2.0)):
        spice.pdpool("BODY%s_POLE_RA" % b, [f*POLE[0], RATE[0], 0.0]); spice.pdpool("BODY%s_POLE_DEC" % b, [POLE[1]/f, RATE[1], 0.0]); spice.pdpool("BODY%s_PM" % b, [PM[0], PM[1], 0.0])
    spice.pdpool("BODY599_POLE_RA", [2*POLE[0], RATE[0], 0.0]); spice.pdpool("BODY599_POLE_DEC", [POLE[1]/2, RATE[1], 0.0]); spice.pdpool("BODY599_PM", [PM[0], PM[1], 0.0])
    _ready[0] = os.getpid()


def to_frame(v, frame):
    if frame == "J2000": return v
    c, s = np.cos(OBL), np.sin(OBL)
    return np.array([[1, 0, 0], [0, c, s], [0, -s, c]]) @ v


def pole(frame, et, obs="399"):
    f = {"399": 1.0, "301": -1.0, "5": 2.0}[obs]
    ra, de = np.deg2rad(np.array([POLE[0]*f, POLE[1]/f])+np.array(RATE)*et/(36525*86400.0))
    return to_frame(np.array([np.cos(de)*np.cos(ra), np.cos(de)*np.sin(ra), np.sin(de)]), frame)


def third(r, s, mu):
    r = np.asarray(r, np.longdouble); s = np.asarray(s, np.longdouble)
    d = s-r
    return np.asarray(mu*(d/np.sqrt(d@d)**3 - s/np.sqrt(s@s)**3), float)


def j2(r, z, mu, J2, Re):
    """gradient of the J2 potential about axis z"""
    out = np.zeros(3)
    for k in range(3):
        q = np.array(r, complex); q[k] += 1e-30j
        n2 = q@q; c2 = (q@z)**2/n2
        out[k] = np.imag(-mu*J2*Re**2/n2**1.5*(3*c2-1)/2)/1e-30
    return out


def cases(tier):
    q = tier == "quick"
    L = [None, [], ["301"], ["10"], ["301", "10"], ["10", "5", "301"]]
    U = [(6378.0, 806.0), (9000.0, 1000.0)] + ([] if q else [(1.0, 1.0)])
    return [dict(bodies=b, J2=j, SRP=s, U=u, frame=f, q=q) for b in L for j in (False, True) for s in (False, True) for u in U for f in ("J2000", "ECLIPJ2000")] + \
        [dict(bodies=b, J2=j, SRP=s, U=U[0], frame=f, q=q, obs=o) for o, L in (("301", [None, ["399"], ["10", "5", "399"]]), ("5", [[], ["301", "10"]])) for b in L for j in (False, True)
         for s in (False, True) for f in ("J2000", "ECLIPJ2000")] + \
        [dict(near=k, n=n, q=q) for k in ("keplerian", "mee_with_a") for n in range(4)] + \
        [dict(fn=f, n=n, q=q) for f in ("third", "J2", "SRP", "rtn") for n in range(3 if q else 6)]


def warm():
    kernels()
    z = np.array([1.0, .2, .3])
    P_.perturbation_third_body_battin(z, 3*z+1, .1); P_.perturbation_J2(z, np.eye(3), 1., .1, 1.); P_.pxformECI2RTN(z, z[::-1].copy())
    p = pyqlaw.SpicePerturbations(ET0, 6378.0, 806.0, frame_PA="IAU_EARTH")
    for k in ("keplerian", "mee_with_a"): p.get_perturbations_RTN(0.0, ref.to_kind(k, [1.2, .1, .3, .4, .5, .6]), k)


def run_case(c, r):
    kernels()
    if "fn" in c: return functions(c, r)
    if "near" in c: return near(c, r)
    obs = c.get("obs", "399")
    okw = {} if obs == "399" else dict(obs_id=obs)
    PA = {"399": "IAU_EARTH", "301": "IAU_MOON", "5": "IAU_JUPITER"}[obs]
    q = c["q"]; LU, TU = c["U"]
    VU2 = (LU/TU)**2*LU
    given = None
    orb = list(itertools.product([.1, .6], [.3, 1.7, 2.6] if q else [.02, .3, 1.4, 2.8], [.5] if q else [.5, 3.9]))
    for own in (False, True):
        if own and not c["bodies"]: continue
        kw = {}
        if own: given = [GM[b]/VU2*(1.5+n) for n, b in enumerate(c["bodies"])]; kw["third_bodies_gms"] = given
        et_ref = ET0 + 1.234e6
        A = dict(J2=.0021, Re_km=6300.0, P_SRP_SI=4.7e-6, Cr_SRP=1.3, Am_SI=.023)
        p = pyqlaw.SpicePerturbations(et_ref, LU, TU, frame_qlaw=c["frame"], frame_PA=PA, third_bodies_names=c["bodies"], use_J2=c["J2"], use_SRP=c["SRP"], **A, **kw, **okw)
        other = pyqlaw.SpicePerturbations(et_ref+5e5, 2*LU, TU, frame_PA="IAU_EARTH", J2=.5, use_SRP=True)       # must not matter
        T = [0.0, 3.7, -2.5e3, 1.1e4] if q else [0.0, 3.7, -2.5e3, 1.1e4, -.01, 37.0, 400.0]
        if LU == 1.0: T = [t*800 for t in T]
        for n, ((e, i, O), th, t, kind) in enumerate(itertools.product(orb, [.4, 3.3], T, ("keplerian", "mee_with_a"))):
            if q and n % 3: continue
            a = 4.3 if n % 2 else 1.9/(1-e)
            if LU == 1.0: a *= 6378
            x = ref.to_kind(kind, [a, e, i, O, 1.1, th])
            X = x.copy()
            mu = GM[obs]/VU2
            rv = ref.CONV[kind][0](x, mu)
            et = et_ref+t*TU
            acc = np.zeros(3); mags = [0.0]
            for m, b in enumerate(c["bodies"] or []):
                d = third(rv[:3], to_frame(pos(b, et, obs), c["frame"])/LU, given[m] if own else GM[b]/VU2)
                acc += d; mags.append(np.linalg.norm(d)); r.tag("third")
            if c["J2"]:
                d = j2(rv[:3], pole(c["frame"], et, obs), mu, A["J2"], A["Re_km"]/LU); acc += d; mags.append(np.linalg.norm(d)); r.tag("J2")
            if c["SRP"]:
                v = rv[:3]*LU - to_frame(pos("10", et, obs), c["frame"])
                k = A["P_SRP_SI"]*A["Cr_SRP"]*A["Am_SI"]*1e-3/(LU/TU**2)
                d = k*AU**2*v/np.linalg.norm(v)**3; acc += d; mags.append(np.linalg.norm(d)); r.tag("SRP")
            want = ref.rtn(rv) @ acc
            other.get_perturbations_RTN(t*.7, x, kind)
            got = np.asarray(p.get_perturbations_RTN(t, x, kind), float)
            r.n += 1; r.nt += int(max(mags) > 0)
            if not c["bodies"] and not c["J2"] and not c["SRP"]: r.tag("none")
            if got.shape != (3,) or not np.all(np.isfinite(got)) or np.linalg.norm(got-want) > 2e-9*sum(mags) if any(mags) else np.any(got != 0):
                r.bad("perturbation is %s, the enabled terms give %s" % (got, want), key="total", t=t, state=X, kind=kind, magnitudes=mags, own_masses=own); return
            if not np.array_equal(X, x): r.bad("state was modified", key="args"); return
    if c["bodies"] == ["301"]:
        for k in ("mee", "", None, "Keplerian"):
            try: p.get_perturbations_RTN(0.0, x, k)
            except Exception: r.n += 1; continue
            r.bad("unknown element set %r accepted" % (k,), key="kind")
    r.sample = dict(c, epoch=t, state=X, acceleration=want)


def near(c, r):
    """one object asked again, after every ordered pair of epochs and orbits: nothing from an earlier query may stay"""
    kind = c["near"]; LU, TU = 6378.0, 806.0; VU2 = LU**3/TU**2; mu = GM["399"]/VU2
    et_ref = ET0-7.7e5
    bodies = [["301"], ["301", "10"], ["5", "301"], []][c["n"]]
    K = [[2.0, .1, .3, .4, 1.1, .4], [2.0, .1, .3, .4, 1.1, .401], [60.0, .5, 1.2, 4.0, .2, 3.0]]
    def want(x, t):
        et = et_ref+t*TU; rv = ref.CONV[kind][0](x, mu)
        acc = sum([third(rv[:3], pos(b, et)/LU, GM[b]/VU2) for b in bodies], np.zeros(3))
        acc = acc + j2(rv[:3], pole("J2000", et), mu, .0021, 6300.0/LU)
        v = rv[:3]*LU-pos("10", et)
        return ref.rtn(rv) @ (acc + 4.56e-6*1.2*.01*1e-3/(LU/TU**2)*AU**2*v/np.linalg.norm(v)**3)
    p = pyqlaw.SpicePerturbations(et_ref, LU, TU, frame_PA="IAU_EARTH", third_bodies_names=bodies, J2=.0021, Re_km=6300.0)
    for t0, ka, kb in itertools.product((0.0, 1234.5), K, K):
        for ds in PAIRS:
            for k, t in ((ka, t0), (kb, t0+ds/TU)):
                x = ref.to_kind(kind, k)
                got = np.asarray(p.get_perturbations_RTN(t, x, kind), float); w = want(x, t)
                r.n += 1; r.nt += 1; r.tag("pair")
                if not np.linalg.norm(got-w) <= 5e-9*np.linalg.norm(w): r.bad("perturbation is %s after an earlier query, the enabled terms give %s" % (got, w), key="pair", t=t, since=ds, state=x, bodies=bodies); return
    # objects built with the default bodies, whatever else was built before
    dflt = pyqlaw.SpicePerturbations(et_ref, LU, TU, frame_PA="IAU_EARTH", J2=.0021, Re_km=6300.0)
    lists = [["301", "10"], ["10"], ["399", "10"], ["10", "301"]]; keep = [list(v) for v in lists]
    for obs, names in [("301", None), ("5", None), ("10", None)] + [(o, v) for o in ("399", "301", "10", "5") for v in lists]:
        kw = {} if names is None else dict(third_bodies_names=names)
        try: pyqlaw.SpicePerturbations(et_ref, LU, TU, obs_id=obs, frame_PA="IAU_EARTH", **kw).get_perturbations_RTN(1.0, ref.to_kind(kind, K[0]), kind)
        except Exception: pass
        if lists != keep: r.bad("the list of bodies passed in was modified: %s" % lists, key="lists", centre=obs); return
        bodies = ["301", "10"]
        for q, t in ((dflt, 3.0), (pyqlaw.SpicePerturbations(et_ref, LU, TU, frame_PA="IAU_EARTH", J2=.0021, Re_km=6300.0), 5.0)):
            x = ref.to_kind(kind, K[2]); got = np.asarray(q.get_perturbations_RTN(t, x, kind), float); w = want(x, t)
            r.n += 1; r.nt += 1; r.tag("default")
            if not np.linalg.norm(got-w) <= 5e-9*np.linalg.norm(w): r.bad("with the default bodies the perturbation is %s after an object centred on %s was built, Moon and Sun give %s" % (got, obs, w), key="default", t=t, state=x); return
    r.sample = dict(pairs=r.n//2, kind=kind, bodies=bodies)


def functions(c, r):
    q = c["q"]
    D = [np.array(v, float)/np.linalg.norm(v) for v in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [-1, 2, -3], [.1, -1, .02], [-1, 0, 0], [-.3, -.2, 5])] + \
        ([] if q else [np.array(v, float)/np.linalg.norm(v) for v in ([2, -1, .5], [1e-3, 1e-3, -1], [-1, -1, .1], [3, 4, 0], [0, -1, 1], [-2, .3, .7])])
    rm = [[.7, 1.0, 42.0], [.9, 1.3, 3.0], [2.0, 5.0, 100.0], [.3, .01, 1e3], [1.0, 1.1, 1.2], [7.0, 11.0, 13.0]][c["n"]]
    ang = [(.0, 0.0, 0.0), (.3, 1.0, -2.0), (2.0, .4, .9), (np.pi/2, 1.5, 3.0)]
    R1 = lambda t: np.array([[1, 0, 0], [0, np.cos(t), np.sin(t)], [0, -np.sin(t), np.cos(t)]])
    R3 = lambda t: np.array([[np.cos(t), np.sin(t), 0], [-np.sin(t), np.cos(t), 0], [0, 0, 1.0]])
    for d1, d2, m in itertools.product(D, D, rm):
        v = m*d1
        if c["fn"] == "third":
            for f in ((1.3, 60.0, 1e4) if q else (1.05, 1.3, 5.0, 60.0, 1e3, 1e5)):
                s = f*m*d2
                if np.linalg.norm(v-s) < .1*m: continue
                V, S = v.copy(), s.copy()
                got = P_.perturbation_third_body_battin(v, s, .37); want = third(v, s, .37)
                r.n += 1; r.nt += 1
                if not np.linalg.norm(got-want) <= 1e-9*np.linalg.norm(want)+1e-300: r.bad("third-body acceleration %s, Newton's law gives %s" % (got, want), key="third", r=v, s=s); return
                if not (np.array_equal(V, v) and np.array_equal(S, s)): r.bad("argument modified", key="args"); return
        elif c["fn"] == "J2":
            for w, i, O in ang:
                T = R3(w) @ R1(i) @ R3(O)
                got = P_.perturbation_J2(v, T, 1.7, .002, .9); want = j2(v, T[2], 1.7, .002, .9)
                r.n += 1; r.nt += 1
                if not np.linalg.norm(got-want) <= 1e-10*np.linalg.norm(want)+1e-300: r.bad("J2 acceleration %s, gradient %s" % (got, want), key="J2", r=v, T=T); return
        elif c["fn"] == "SRP":
            for au in (1.0, 23455.0):
                got = P_.perturbation_SRP(v, au, .03); want = .03*(au/m)**2*d1
                r.n += 1; r.nt += 1
                if not np.linalg.norm(got-want) <= 1e-12*np.linalg.norm(want): r.bad("radiation acceleration %s, expected %s" % (got, want), key="SRP", r=v); return
        else:
            if np.linalg.norm(np.cross(d1, d2)) < 1e-3: continue
            for s in (.3, 2.0):
                got = P_.pxformECI2RTN(v, s*d2)
                R = d1; N = np.cross(d1, d2); N = N/np.linalg.norm(N); W = np.array([R, np.cross(N, R), N])
                r.n += 1; r.nt += 1
                if not np.allclose(got, W, atol=1e-12): r.bad("frame matrix %s, expected %s" % (got, W), key="rtn", r=v, v=s*d2); return
                if not (np.allclose(got @ got.T, np.eye(3), atol=1e-12) and abs(np.linalg.det(got)-1) < 1e-12): r.bad("frame matrix is not a rotation", key="rtn"); return
    r.sample = dict(function=c["fn"], magnitudes=rm)
