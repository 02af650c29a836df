"""C32  Orbits obey Kepler's laws."""
import contextlib
import io
import math
import numpy as np
import BayesicFitting as bf
from BayesicFitting.source.Kepplers2ndLaw import Kepplers2ndLaw
import util
from harness import Case

RULE = "distinct = (relation, eccentricity class, phase range) evaluated on arrays of times"
ASSUMPTIONS = ["the reference solution of Kepler's equation is a bisection in numpy",
               "methods which announce that they did not converge (simple iteration and Newton at high eccentricity) are not judged"]
REQUIRE = {"times": 100000, "high": 50, "solvers": 50, "areas": 50, "radial": 50, "stellar": 50, "derivatives": 50}
TWOPI = 2 * math.pi
HIGH = [0.9, 0.97, 0.99, 0.999, 0.9999, 0.99999, 0.999999]


def kepler(M, e):
    """ solution of Kepler's equation by bisection : E - e <= M <= E + e """
    lo, hi = M - e - 1e-12, M + e + 1e-12
    for k in range(80):
        mid = 0.5 * (lo + hi)
        s = mid - e * np.sin(mid) < M
        lo, hi = np.where(s, mid, lo), np.where(s, hi, mid)
    return 0.5 * (lo + hi)


def ecc(rng):
    r = rng.random()
    if r < 0.1:
        return 0.0
    if r < 0.7:
        return float(rng.uniform(0, 0.95))
    return float(rng.choice(HIGH))


def orbit(rng):
    e = ecc(rng)
    a, P, p = float(np.exp(rng.normal())), float(np.exp(2 * rng.normal())), float(rng.uniform(0, TWOPI))
    n = int(rng.integers(1, 400))
    span = float(rng.choice([0.5, 1, 3, 30]))
    x = P * rng.uniform(-span, span, n)
    if rng.random() < 0.3:
        # at and around periastron and apastron
        k = rng.integers(-3, 4, n)
        x = P * (p / TWOPI + k + rng.choice([0, 0.5, 1e-9, 1e-6, -1e-6, 1e-3, 0.4999], n))
    return e, a, P, p, x, np.array([e, a, P, p])


def equation(mon, rng, idx):
    e, a, P, p, x, par = orbit(rng)
    k = Kepplers2ndLaw()
    M = TWOPI * x / P - p
    mon.close(k.meanAnomaly(x, par), M, "mean-anomaly", atol=1e-12 * (1 + np.max(np.abs(M))))
    E = kepler(M, e)
    xc, pc = x.copy(), par.copy()
    ctx = {"e": e, "P": P, "p": p, "x": x}
    with mon.guarded("eccentric-anomaly", **ctx):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            got = k.eccentricAnomaly(x, par)
        mon.expect("No convergence" not in out.getvalue(), "convergence", out.getvalue(), **ctx)
        mon.close(got - e * np.sin(got), M, "kepler-equation", rtol=0, atol=1e-7 + 1e-14 * np.max(np.abs(M)), **ctx)
        # close to periastron of a very eccentric orbit E is ill determined
        ill = 1e-13 * (1 + np.abs(M)) / (1 - e * np.cos(E))
        ill = np.minimum(ill, np.cbrt(6e-13 * (1 + np.abs(M))))
        mon.expect(np.all(np.abs(got - E) <= 1e-7 + 10 * ill), "eccentric-anomaly", "max error %g" % np.max(np.abs(got - E)), **ctx)
        mon.count("times", len(x))
        if e >= 0.9:
            mon.count("high")
        r, v = k.radiusAndTrueAnomaly(x, par)
        c = 1 - e * np.cos(E)
        mon.close(r, a * c, "radius", rtol=1e-6, atol=a * 1e-6 * 1e-3 + a * 1e-7, **ctx)
        tol = 1e-6 if e < 0.95 else 1e-2
        ok = c > 1e-4
        mon.close((r * np.cos(v))[ok], a * (np.cos(E) - e)[ok], "true-anomaly", rtol=0, atol=tol * a, **ctx)
        mon.close((r * np.sin(v))[ok], a * (math.sqrt(1 - e * e) * np.sin(E))[ok], "true-anomaly", rtol=0, atol=tol * a, **ctx)
        mon.close(r * (1 + e * np.cos(v)), a * (1 - e * e) + 0 * v, "conic", rtol=0, atol=tol * a, **ctx)
        mon.expect(np.array_equal(x, xc) and np.array_equal(par, pc), "altered", **ctx)
        # period
        m = int(rng.integers(-3, 4))
        r2, v2 = k.radiusAndTrueAnomaly(x + m * P, par)
        mon.close(r2[ok], r[ok], "period", rtol=0, atol=tol * a, **ctx)
        if e < 0.95:
            mon.close(util.angdiff(v2 - v), 0 * v, "period", rtol=0, atol=1e-5, **ctx)
        # each of the times on its own
        j = int(rng.integers(len(x)))
        r3, v3 = k.radiusAndTrueAnomaly(x[j:j + 1], par)
        mon.close(r3, r[j:j + 1], "one-by-one", rtol=0, atol=1e-6 * a, **ctx)
        if c[j] > 1e-2:
            mon.close(util.angdiff(v3 - v[j:j + 1]), [0.0], "one-by-one", rtol=0, atol=1e-5, **ctx)
    mon.state("equation", round(e, 1), e >= 0.99, int(np.max(np.abs(M)) // 20), len(x) > 1)
    mon.sample("e=%.6f, %d times" % (e, len(x)))


def solvers(mon, rng, idx):
    """ the alternative methods give the same solution, if they do not complain """
    e, a, P, p, x, par = orbit(rng)
    k = Kepplers2ndLaw()
    M = TWOPI * x / P - p
    E = kepler(M, e)
    for f in (k.eccentricAnomaly0, k.eccentricAnomaly1, k.eccentricAnomaly2):
        out = io.StringIO()
        with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
            got = f(x, par)
        if "No convergence" in out.getvalue():
            mon.expect(e > 0.8 and f is not k.eccentricAnomaly2 and f != k.eccentricAnomaly2, "solver-convergence:%s" % f.__name__, e=e)
            continue
        mon.expect(k.iter <= 100, "solver-iter:" + f.__name__, e=e)
        mon.close(got - e * np.sin(got), M, "solver:" + f.__name__, rtol=0, atol=1e-7, e=e, x=x, P=P, p=p)
        if e < 0.9:
            mon.close(got, E, "solver:" + f.__name__, rtol=0, atol=1e-6, e=e, x=x, P=P, p=p)
        mon.count("solvers")
    # from another start
    got = k.eccentricAnomaly2(x, par, Estart=E + 0.01 * rng.normal(size=len(x)) * (e < 0.9))
    mon.close(got - e * np.sin(got), M, "solver:Estart", rtol=0, atol=1e-7, e=e, x=x)
    mon.state("solvers", round(e, 1))


def areas(mon, rng, idx):
    """ equal areas in equal times; r^2 dv/dt is constant """
    e, a, P, p, x, par = orbit(rng)
    e = min(e, 0.97)
    par[0] = e
    k = Kepplers2ndLaw()
    n = 4001
    t0 = P * rng.uniform(-2, 2)
    t = np.linspace(t0, t0 + P, n)
    r, v = k.radiusAndTrueAnomaly(t, par)
    X, Y = r * np.cos(v), r * np.sin(v)
    tri = 0.5 * (X[:-1] * Y[1:] - X[1:] * Y[:-1])
    total = math.pi * a * a * math.sqrt(1 - e * e)
    mon.close(np.sum(tri), total, "area", rtol=2e-4, e=e)
    q = np.add.reduceat(tri, np.arange(0, n - 1, 400))
    mon.close(q, np.full(10, total / 10), "equal-areas", rtol=0, atol=1e-3 * total, e=e)
    r, v = k.radiusAndTrueAnomaly(x, par)
    drdx, dvdx = k.drvdx(x, par, k.cosE, k.sinE)
    far = 1 + k.cosE > 1e-6
    mon.close((r * r * dvdx)[far], np.full(np.sum(far), 2 * total / P), "angular-momentum", rtol=1e-5, e=e, x=x)
    # vis viva
    mu = TWOPI ** 2 * a ** 3 / P ** 2
    mon.close((drdx ** 2 + (r * dvdx) ** 2)[far], (mu * (2 / r - 1 / a))[far], "vis-viva", rtol=1e-5, atol=1e-6 * mu / a, e=e, x=x)
    mon.count("areas")
    mon.state("areas", round(e, 1))


def rv(x, q):
    E = kepler(TWOPI * x / q[2] - q[3], q[0])
    r = q[1] * (1 - q[0] * np.cos(E))
    return r, 2 * np.arctan2(math.sqrt(1 + q[0]) * np.sin(E / 2), math.sqrt(1 - q[0]) * np.cos(E / 2))


def derivatives(mon, rng, idx):
    e, a, P, p, x, par = orbit(rng)
    e = min(max(e, 0.02), 0.9)
    x = x[:60]
    par[0] = e
    k = Kepplers2ndLaw()
    r, v = k.radiusAndTrueAnomaly(x, par)
    E, cE, sE = k.eccAnomaly, k.cosE, k.sinE
    far = 1 + cE > 1e-4
    drde, drda, drdP, drdp, dvde, dvdP, dvdp = k.drvdpar(x, par, E, cE, sE)

    def num(i, h):
        up, dn = par.copy(), par.copy()
        up[i] += h
        dn[i] -= h
        ru, vu = rv(x, up)
        rd, vd = rv(x, dn)
        return (ru - rd) / (2 * h), util.angdiff(vu - vd) / (2 * h)
    for i, dr, dv, name in ((0, drde, dvde, "e"), (1, drda, 0 * r, "a"), (2, drdP, dvdP, "P"), (3, drdp, dvdp, "p")):
        h = 1e-6 * (1 if i in (0, 3) else par[i])
        if i == 2:
            h = h / (1 + np.max(np.abs(x)) / P)
        nr, nv = num(i, h)
        for d, nn, w in ((dr, nr, "r"), (dv, nv, "v")):
            d = d + np.zeros(len(x))
            s = 1 + np.max(np.abs(nn))
            mon.close(d[far], nn[far], "d%sd%s" % (w, name), rtol=1e-3, atol=1e-4 * s, e=e, x=x, par=par)
    drdx, dvdx = k.drvdx(x, par, cE, sE)
    h = 1e-6 * P
    ru, vu = rv(x + h, par)
    rd, vd = rv(x - h, par)
    mon.close(drdx[far], ((ru - rd) / (2 * h))[far], "drdx", rtol=1e-3, atol=1e-4 * (1 + np.max(np.abs(drdx))), e=e, x=x)
    mon.close(dvdx[far], (util.angdiff(vu - vd) / (2 * h))[far], "dvdx", rtol=1e-3, atol=1e-4 * (1 + np.max(np.abs(dvdx))), e=e, x=x)
    dEde, dEdP, dEdp = k.dEdpar(x, par, cE, sE)
    h = 1e-6
    M = k.meanAnomaly(x, par)
    mon.close(dEde, (kepler(M, e + h) - kepler(M, e - h)) / (2 * h), "dEde", rtol=1e-4, atol=1e-4, e=e, x=x)
    mon.close(k.dEdM(x, par, cE), (kepler(M + h, e) - kepler(M - h, e)) / (2 * h), "dEdM", rtol=1e-4, atol=1e-4, e=e, x=x)
    mon.count("derivatives")
    mon.state("derivatives", round(e, 1))


def radial(mon, rng, idx):
    e, a, P, p, x, par = orbit(rng)
    e = min(e, 0.97)
    w = float(rng.uniform(0, TWOPI))
    m = bf.RadialVelocityModel()
    q = np.array([e, a, P, p, w])
    r, v = rv(x, q)
    f = m.result(x, q.copy())
    mon.close(f, a * (np.cos(v + w) + e * math.cos(w)), "radial-velocity", rtol=0, atol=1e-5 * a, q=q, x=x)
    mon.expect(np.all(f <= a * (1 + e * math.cos(w)) + 1e-9 * a) and np.all(f >= a * (-1 + e * math.cos(w)) - 1e-9 * a), "amplitude", q=q)
    # the mean velocity over an orbit is zero
    t = P * (np.arange(8000) + 0.5) / 8000 + rng.uniform(-1, 1)
    mon.close(np.mean(m.result(t, q)), 0.0, "closed-orbit", atol=2e-3 * a, q=q)
    mon.close(m.result(x + 2 * P, q), f, "radial-period", rtol=0, atol=1e-4 * a / (1 - e) ** 2, q=q)
    # e < 1 : shape of the orbit from the velocity
    m.parameters = q
    mon.close(m.semimajoraxis, a * P * math.sqrt(1 - e * e) / TWOPI, "semimajoraxis", rtol=1e-9, q=q)
    ms = float(rng.uniform(0.1, 3))
    mon.close(m.getMsini(ms), 4.91e-3 * ms ** (2 / 3) * a * P ** (1 / 3) * math.sqrt(1 - e * e), "msini", rtol=1e-9, q=q)
    mon.count("radial")
    mon.state("radial", round(e, 1))


def stellar(mon, rng, idx):
    e, a, P, p, x, par = orbit(rng)
    e = min(e, 0.95)
    inc, O, w = float(rng.uniform(0.05, 1.5)), float(rng.uniform(0, math.pi)), float(rng.uniform(0, TWOPI))
    if rng.random() < 0.3:
        inc = math.pi - inc
    q = np.array([e, a, P, p, inc, O, w])
    sph, rect = bf.StellarOrbitModel(), bf.StellarOrbitModel(spherical=False)
    s, xy = sph.result(x, q.copy()), rect.result(x, q.copy())
    mon.close(xy[:, 0], s[:, 0] * np.sin(s[:, 1]), "rectangular", rtol=0, atol=1e-9 * a, q=q)
    mon.close(xy[:, 1], -s[:, 0] * np.cos(s[:, 1]), "rectangular", rtol=0, atol=1e-9 * a, q=q)
    mon.close(rect.toRect(sph.toSpher(xy)), xy, "toSpher", rtol=0, atol=1e-9 * a)
    r, v = rv(x, q)
    mon.close(s[:, 0], r * np.sqrt(np.cos(v + w) ** 2 + (np.sin(v + w) * math.cos(inc)) ** 2), "separation", rtol=0, atol=1e-5 * a, q=q)
    # the projected orbit is an ellipse, in the sense of the inclination
    t = np.linspace(0, P, 4001) + rng.uniform(-1, 1)
    z = rect.result(t, q)
    area = 0.5 * np.sum(z[:-1, 0] * z[1:, 1] - z[1:, 0] * z[:-1, 1])
    mon.close(area, math.pi * a * a * math.sqrt(1 - e * e) * math.cos(inc), "projected-area", rtol=2e-3, atol=1e-6 * a * a, q=q)
    # in the nodes the angle is that of the line of nodes
    t = np.linspace(0, P, 4001)
    rr, vv = rv(t, q)
    node = np.abs(np.sin(vv + w)) < 1e-3
    if node.any():
        z = sph.result(t[node], q)
        mon.expect(np.all(np.abs(np.sin(z[:, 1] - O)) < 2e-3), "line-of-nodes", q=q)
    mon.count("stellar")
    mon.state("stellar", round(e, 1), inc > math.pi / 2)


CASES = [Case("equation", equation, quick=600, thorough=10000, chunk=20),
         Case("solvers", solvers, quick=150, thorough=2000, chunk=10),
         Case("areas", areas, quick=150, thorough=2000, chunk=10),
         Case("derivatives", derivatives, quick=150, thorough=3000, chunk=10),
         Case("radial", radial, quick=120, thorough=2000, chunk=10),
         Case("stellar", stellar, quick=120, thorough=2000, chunk=10)]
