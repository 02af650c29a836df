"""C26  Spline models are smooth, complete and reproduce polynomials."""
import math
import numpy as np
import BayesicFitting as bf
from harness import Case

RULE = "distinct = (model, order, number of knots, spacing, border, how the knots are given)"
ASSUMPTIONS = ["inputs lie within the range of the knots", "periodic borders with at least order + 2 knots",
               "border=2 of BasicSplinesModel is not implemented (raises) and is not driven"]
REQUIRE = {"models": 150, "knots": 400, "reproduced": 400, "periodic": 20, "surfaces": 20, "rebuilt": 10, "slopes": 300}


def knots(rng, n, kind):
    lo = float(rng.choice([0.0, -1.0, rng.normal(0, 3)]))
    span = float(rng.choice([1.0, 10.0, np.exp(rng.normal())]))
    if kind == "even":
        return np.linspace(lo, lo + span, n)
    d = rng.uniform(0.5, 2.0, n - 1) if kind == "uneven" else np.exp(rng.uniform(-2, 1, n - 1))
    k = np.concatenate(([0.0], np.cumsum(d)))
    return lo + span * k / k[-1]


def make(rng, name, kn, o, mon):
    how = str(rng.choice(["knots", "list", "minmax", "xrange"]))
    cls = getattr(bf, name)
    if how == "knots":
        return cls(knots=kn, order=o), kn, how
    if how == "list":
        return cls(knots=list(kn), order=o), kn, how
    n = len(kn)
    e = np.linspace(kn[0], kn[-1], n)
    if how == "minmax":
        return cls(nrknots=n, order=o, min=kn[0], max=kn[-1]), e, how
    return cls(nrknots=n, order=o, xrange=rng.permutation(np.concatenate((kn, [kn[0], kn[-1]])))), e, how


def local(m, p, a, b, o, deg=None):
    """ polynomial coefficients in ( x - a ) of the function on the open interval (a,b), and the misfit of it """
    t = a + (b - a) * (0.5 - 0.49 * np.cos(np.pi * np.arange(o + 4) / (o + 3)))
    y = np.array(m.result(t, p), dtype=float)
    u = (t - a) / (b - a)
    V = np.vander(u, o + 1, increasing=True)
    c = np.linalg.lstsq(V, y, rcond=None)[0]
    return c, np.max(np.abs(V @ c - y)) / max(1e-300, np.max(np.abs(y)) + np.max(np.abs(p)))


def pdiff(c, u, j, h):
    """ j-th derivative at u of a polynomial in ( x - a ) / h """
    return sum(c[k] * math.factorial(k) / math.factorial(k - j) * u ** (k - j) for k in range(j, len(c))) / h ** j


def pieces(mon, m, p, kn, o, name, wit, cyclic=False):
    """ polynomial pieces that fit smoothly """
    cs = []
    for a, b in zip(kn[:-1], kn[1:]):
        c, mis = local(m, p, a, b, o)
        mon.expect(mis < 1e-7, "piece/" + name, "between knots it is not a polynomial of order %d: misfit %.2g" % (o, mis), **wit)
        cs.append(c)
    join = list(zip(range(len(kn) - 2), range(1, len(kn) - 1))) + ([(len(kn) - 2, 0)] if cyclic else [])
    for i, j in join:
        hi, hj = kn[i + 1] - kn[i], kn[j + 1] - kn[j]
        for d in range(o):
            l, r = pdiff(cs[i], 1.0, d, hi), pdiff(cs[j], 0.0, d, hj)
            scale = sum(abs(v) for v in cs[i]) / min(hi, hj) ** d * math.factorial(o) + sum(abs(v) for v in cs[j]) / min(hi, hj) ** d * math.factorial(o) + 1e-9
            mon.expect(abs(l - r) < 1e-6 * scale, "smooth/" + name, "derivative %d jumps from %g to %g at knot %d" % (d, l, r, j), **wit)
        mon.count("knots")
    return cs


def onedim(mon, rng, idx):
    name = ["SplinesModel", "BasicSplinesModel", "BSplinesModel"][idx % 3]
    o = int(rng.integers(1 if name == "BSplinesModel" else 0, 5))
    n = int(rng.integers(2, 9))
    kind = str(rng.choice(["even", "uneven", "wild"]))
    m, kn, how = make(rng, name, knots(rng, n, kind), o, mon)
    if name == "BSplinesModel" and rng.random() < 0.3:
        # the knots and the order are attributes that can be set
        kn = knots(rng, n, kind)
        m.knots = kn
        mon.count("rebuilt")
    np_ = n + o - 1
    wit = dict(model=name, order=o, knots=kn, how=how)
    if not mon.expect(m.npars == np_, "npars/" + name, "%d parameters instead of %d" % (m.npars, np_), **wit):
        return
    mon.close(m.knots, kn, "knots/" + name, rtol=1e-12, **wit)
    mon.expect(m.order == o, "order/" + name)
    mon.count("models")
    mon.state(name, o, n, kind, how)
    span = kn[-1] - kn[0]
    p = rng.normal(size=np_)
    cs = pieces(mon, m, p, kn, o, name, wit)
    if cs:
        # the slope at the knots is the one of the adjacent pieces, at the ends from the inside
        h = np.diff(kn)
        at = list(range(n)) if o > 1 else [0, n - 1] if o == 1 else []
        for k in at:
            got = float(np.asarray(m.derivative(np.array([kn[k]]), p)).reshape(-1)[0])
            j = min(k, n - 2)
            want = pdiff(cs[j], float(k - j), 1, h[j])
            scale = sum(abs(v) for v in cs[j]) / h[j] * max(o, 1) + 1e-9
            mon.expect(abs(got - want) < 1e-5 * scale, "slope-knot/" + name, "%g instead of %g at knot %d of %d" % (got, want, k, n), **wit)
            mon.count("slopes")

    # the set of functions: points in random order, all knots included
    per = 2 * o + 6
    x = np.concatenate([a + (b - a) * rng.uniform(0.01, 0.99, per) for a, b in zip(kn[:-1], kn[1:])] + [kn])
    x = rng.permutation(x)
    P = np.array(m.partial(x, p))
    if not mon.expect(P.shape == (len(x), np_), "partial-shape/" + name, "%s" % (P.shape,), **wit):
        return
    mon.close(m.result(x, p), P @ p, "linear/" + name, rtol=1e-9, atol=1e-9 * np.max(np.abs(P)), **wit)
    u = (x - kn[0]) / span
    S = np.linalg.svd(P / np.maximum(np.max(np.abs(P), axis=0), 1e-300), compute_uv=False)
    mon.expect(S[-1] > 1e-10 * S[0], "complete/" + name, "the basis functions are dependent: %s" % S[[0, -1]], **wit)
    for d in range(o + 1):
        y = u ** d
        # against ill conditioning each column on the same scale
        Q = P / np.maximum(np.max(np.abs(P), axis=0), 1e-300)
        c = np.linalg.lstsq(Q, y, rcond=1e-15)[0]
        mon.expect(np.max(np.abs(Q @ c - y)) < 1e-6, "reproduce/" + name, "x^%d not reproduced: %.2g" % (d, np.max(np.abs(Q @ c - y))), **wit)
        # and as model with these parameters
        pp = c / np.maximum(np.max(np.abs(P), axis=0), 1e-300)
        mon.close(m.result(x, pp), Q @ c, "reproduce-value/" + name, rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(c))), **wit)
        if d > 0 and o > 1:
            inner = x[np.min(np.abs(x[:, None] - kn[None, :]), axis=1) > 1e-3 * span]
            want = d * ((inner - kn[0]) / span) ** (d - 1) / span
            mon.close(m.derivative(inner, pp), want, "reproduce-slope/" + name, rtol=1e-5, atol=1e-5 * (1 + np.max(np.abs(c))) / np.min(np.diff(kn)), **wit)
        mon.count("reproduced")
    # x^(o+1) is not in the set, unless there are more knots than that
    if n == 2:
        y = u ** (o + 1)
        c = np.linalg.lstsq(P, y, rcond=1e-15)[0]
        mon.expect(np.max(np.abs(P @ c - y)) > 1e-6, "order-too-high/" + name, **wit)
    if name == "SplinesModel":
        # the first parameters are polynomial
        for k in range(o):
            mon.close(P[:, k], x ** k, "first/" + name, rtol=1e-9, **wit)
    else:
        mon.close(np.sum(P, axis=1), np.ones(len(x)), "unity/" + name, rtol=1e-6, atol=1e-6, detail="the basis does not add up to one", **wit)
        mon.expect(P.min() > -1e-7, "negative/" + name, "%g" % P.min(), **wit)
        t = np.concatenate((np.full(o, kn[0]), kn, np.full(o, kn[-1])))
        for k in range(np_):
            out = (x < t[k]) | (x > t[k + o + 1])
            mon.expect(not np.any(np.abs(P[out, k]) > 1e-8), "support/" + name, "parameter %d is felt outside its %d intervals" % (k, o + 1), **wit)
            mid = (x > t[k] + 1e-3 * span) & (x < t[k + o + 1] - 1e-3 * span)
            mon.expect(np.all(P[mid, k] > 0), "support-gap/" + name, "parameter %d is not felt inside its intervals" % k, **wit)
        if o > 0:
            # clamped: first and last parameter are the values at the borders
            mon.close(m.result(kn[[0, -1]], p), p[[0, -1]], "borders/" + name, rtol=1e-6, atol=1e-6, **wit)
    # one by one, in any order, or all together
    one = np.array([float(np.asarray(m.result(np.array([v]), p)).reshape(-1)[0]) for v in x])
    mon.close(one, m.result(x, p), "one-by-one/" + name, rtol=1e-9, atol=1e-12, **wit)
    xi = np.unique(np.round(x).astype(int))
    xi = xi[(xi >= kn[0]) & (xi <= kn[-1])]
    if len(xi):
        mon.close(m.result(xi, p), m.result(xi.astype(float), p), "integer-input/" + name, rtol=1e-12, **wit)
        mon.close(m.derivative(xi, p), m.derivative(xi.astype(float), p), "integer-input/" + name, rtol=1e-12, **wit)
    mon.sample("splines", model=name, order=o, knots=n, spacing=kind)


def periodic(mon, rng, idx):
    o = int(rng.integers(0, 5))
    n = int(rng.integers(max(3, o + 2), o + 7))
    kind = str(rng.choice(["even", "uneven"]))
    kn = knots(rng, n, kind)
    m = bf.BasicSplinesModel(knots=kn, order=o, border=1)
    if rng.random() < 0.3:
        m = m.copy()
    wit = dict(order=o, knots=kn)
    np_ = n - 1
    mon.expect(m.npars == np_, "npars/periodic", "%d" % m.npars, **wit)
    p = rng.normal(size=np_)
    pieces(mon, m, p, kn, o, "periodic", wit, cyclic=True)
    x = rng.uniform(kn[0], kn[-1], 200)
    P = np.array(m.partial(x, p))
    mon.close(P.sum(axis=1), np.ones(len(x)), "unity/periodic", rtol=1e-7, **wit)
    mon.expect(P.min() > -1e-7, "negative/periodic", "%g" % P.min(), **wit)
    mon.expect(np.linalg.matrix_rank(P) == np_ or (o % 2 == 0 and (n - 1) % 2 == 0) , "complete/periodic", "rank %d of %d" % (np.linalg.matrix_rank(P), np_), **wit)
    mon.close(m.result(x, p), P @ p, "linear/periodic", rtol=1e-9, atol=1e-9, **wit)
    if o > 0:
        b = m.partial(kn[[0, -1]], p)
        mon.close(b[0], b[1], "borders/periodic", rtol=1e-7, atol=1e-7, **wit)
    mon.count("periodic")
    mon.count("models")
    mon.state("periodic", o, n, kind)


def surface(mon, rng, idx):
    nd = 2 if rng.random() < 0.8 else 3
    o = [int(rng.integers(0, 4)) for k in range(nd)]
    same = rng.random() < 0.3
    if same:
        o = [o[0]] * nd
    kn = [knots(rng, int(rng.integers(2, 5)), str(rng.choice(["even", "uneven"]))) for k in range(nd)]
    if nd == 3:
        kn = [k[[0, -1]] if rng.random() < 0.5 else k for k in kn]
    m = bf.SurfaceSplinesModel(kn, order=o[0] if same else o)
    wit = dict(order=o, knots=[k.tolist() for k in kn])
    np_ = int(np.prod([len(k) + q - 1 for k, q in zip(kn, o)]))
    if not mon.expect(m.npars == np_, "npars/surface", "%d instead of %d" % (m.npars, np_), **wit):
        return
    p = rng.normal(size=np_)
    nx = 3 * np_ + 20
    x = np.array([rng.uniform(k[0], k[-1], nx) for k in kn]).T
    P = np.array(m.partial(x, p))
    mon.close(m.result(x, p), P @ p, "linear/surface", rtol=1e-8, atol=1e-8 * np.max(np.abs(P)), **wit)
    # a direct product: every product of one dimensional splines is in it, with the products of the parameters
    ms = [bf.SplinesModel(knots=k, order=q) for k, q in zip(kn, o)]
    qs = [rng.normal(size=s.npars) for s in ms]
    val = np.ones(nx)
    pp = np.ones(1)
    for k in range(nd):
        val = val * ms[k].result(x[:, k], qs[k])
        pp = np.outer(pp, qs[k]).reshape(-1)
    mon.close(m.result(x, pp), val, "product/surface", rtol=1e-7, atol=1e-8 * np.max(np.abs(P)), **wit)
    s = x[rng.integers(nx)]
    mon.close(np.asarray(m.result(s.reshape(1, nd), p)).reshape(-1)[0], P[np.where((x == s).all(axis=1))[0][0]] @ p, "one-by-one/surface", rtol=1e-8, atol=1e-8, **wit)
    # partials and value are piecewise polynomial along each axis and smooth at the knots
    for k in range(nd):
        c = x[0].copy()

        class Along(object):
            def result(self, t, q, k=k, c=c):
                X = np.tile(c, (len(t), 1))
                X[:, k] = t
                return m.result(X, q)
        pieces(mon, Along(), p, kn[k], o[k], "surface", wit)
    mon.count("surfaces")
    mon.count("models")
    mon.state("surface", tuple(o), tuple(len(k) for k in kn))


CASES = [Case("onedim", onedim, quick=240, thorough=3000, chunk=10),
         Case("periodic", periodic, quick=40, thorough=500, chunk=10),
         Case("surface", surface, quick=40, thorough=500, chunk=10)]
