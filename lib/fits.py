"""Random fitting problems with independent solutions."""
import math
import numpy as np
import BayesicFitting as bf


def linear_model(rng, ndim=None):
    """ (name, factory, x) : a model linear in its parameters; factory() makes a fresh one """
    n = int(rng.integers(14, 60))
    k = int(rng.integers(0, 11))
    if ndim == 2:
        k = int(rng.integers(8, 10))
    x = np.sort(rng.uniform(-3, 3, n))
    if k == 0:
        d = int(rng.integers(0, 5))
        return "poly%d" % d, lambda: bf.PolynomialModel(d), x
    if k == 1:
        d = int(rng.integers(1, 3))
        return "poly+harmonic", lambda: bf.PolynomialModel(1) + bf.HarmonicModel(d, period=4.0), x
    if k == 2:
        return "poly fixed", lambda: bf.PolynomialModel(3, fixed={0: 1.5, 2: -0.4}), x
    if k == 3:
        return "splines", lambda: bf.SplinesModel(knots=np.linspace(-3.1, 3.1, 4)), x
    if k == 4:
        return "basic splines", lambda: bf.BasicSplinesModel(knots=np.linspace(-3.1, 3.1, 4)), x
    if k == 5:
        return "sine fixed + poly", lambda: bf.SineModel(fixed={0: 0.4}) + bf.PolynomialModel(1), x
    if k == 6:
        return "chebyshev", lambda: bf.ChebyshevPolynomialModel(3), x / 3
    if k == 7:
        return "const + gauss fixed", lambda: bf.GaussModel(fixed={1: 0.3, 2: 0.8}) + bf.ConstantModel(values=2.0) + \
            bf.PolynomialModel(1), x
    if k == 8:
        return "surface", lambda: bf.PolySurfaceModel(2), rng.uniform(-2, 2, (n, 2))
    if k == 9:
        return "product", lambda: bf.ProductModel([bf.PolynomialModel(1), bf.PolynomialModel(1, fixed={0: 1.0, 1: 0.5})]), \
            rng.uniform(-2, 2, (n, 2))
    d = int(rng.integers(1, 4))
    return "power sum", lambda: bf.PowerModel(exponent=d) + bf.PowerModel(exponent=0), x


def values(rng, n, what):
    """ weights or accuracy of several forms """
    k = int(rng.integers(0, 4))
    if k == 0:
        return None
    if what == "accuracy" and k == 1:
        return float(np.exp(rng.uniform(-1, 1)))
    if what == "weights" and k == 1:
        return rng.integers(1, 4, n)
    v = np.exp(rng.uniform(-1.2, 1.2, n))
    if what == "weights" and k == 2:
        v[rng.integers(0, n, 2)] = 0.0
    return v


def combined(n, w, acc):
    v = np.ones(n)
    if w is not None:
        v = v * np.asarray(w, dtype=float)
    if acc is not None:
        v = v / np.asarray(acc, dtype=float) ** 2
    return v


def lstsq(D, y, wgt, offset=0.0, keep=None, norm=None):
    """ minimum of sum wgt ( y - offset - D p )^2 + norm terms, with kept parameters """
    npar = D.shape[1]
    keep = keep or {}
    free = [k for k in range(npar) if k not in keep]
    p = np.zeros(npar)
    for k, v in keep.items():
        p[k] = v
    A, b, w = D, np.asarray(y, dtype=float) - offset, np.asarray(wgt, dtype=float)
    for dfdp, dat, nw in (norm or []):
        A = np.vstack((A, dfdp))
        b = np.append(b, dat)
        w = np.append(w, nw)
    b = b - A @ p
    s = np.sqrt(w)
    if free:
        sol = np.linalg.lstsq(A[:, free] * s[:, None], b * s, rcond=None)[0]
        p[free] = sol
    return p, free


def design(model, x):
    """ the columns of a linear model from its result only """
    npar = model.npchain
    o = np.asarray(model.result(x, np.zeros(npar)), dtype=float)
    cols = []
    for k in range(npar):
        e = np.zeros(npar)
        e[k] = 1.0
        cols.append(np.asarray(model.result(x, e), dtype=float) - o)
    return np.stack(cols, axis=1) if cols else np.zeros((len(o), 0)), o


def nonlinear_model(rng):
    """ (name, factory, x, truth, typical sizes of the parameters) : well posed problems when started near truth """
    n = int(rng.integers(30, 90))
    x = np.sort(rng.uniform(-3, 3, n))
    u = rng.uniform
    k = int(rng.integers(0, 10))
    if k == 0:
        return "gauss+const", lambda: bf.GaussModel() + bf.PolynomialModel(0), x, [u(2, 5), u(-1, 1), u(0.6, 1.2), u(-1, 1)]
    if k == 1:
        return "gauss+poly", lambda: bf.GaussModel() + bf.PolynomialModel(1), x, [u(3, 6), u(-1, 1), u(0.5, 0.9), u(-1, 1), u(-.5, .5)]
    if k == 2:
        return "sine", lambda: bf.SineModel(), x, [u(0.3, 0.5), u(2, 3), u(1, 2)]
    if k == 3:
        return "exp", lambda: bf.ExpModel(), x, [u(1, 3), u(-0.9, -0.3)]
    if k == 4:
        return "lorentz+const", lambda: bf.LorentzModel() + bf.PolynomialModel(0), x, [u(2, 5), u(-1, 1), u(0.6, 1.2), u(-1, 1)]
    if k == 5:
        return "sinc", lambda: bf.SincModel(), x, [u(2, 4), u(-1, 1), u(0.5, 0.9)]
    if k == 6:
        return "arctan", lambda: bf.ArctanModel(), x, [u(2, 4), u(-0.5, 0.5), u(0.8, 1.5)]
    if k == 7:
        return "logistic", lambda: bf.LogisticModel(), x, [u(2, 4), u(-0.5, 0.5), u(1.0, 2.0)]
    if k == 8:
        return "poly", lambda: bf.PolynomialModel(2), x, [u(-2, 2), u(-2, 2), u(-2, 2)]
    return "gauss fixed", lambda: bf.GaussModel(fixed={1: 0.2}) + bf.PolynomialModel(1), x, [u(2, 5), u(0.6, 1.2), u(-1, 1), u(-.5, .5)]


def polish(fun, p, free, lo=None, hi=None):
    """ independent local least squares: fun( p ) returns the weighted residuals """
    from scipy.optimize import least_squares
    p = np.array(p, dtype=float)
    if not free:
        return p, float(np.sum(fun(p) ** 2))

    def f(q):
        z = p.copy()
        z[free] = q
        return fun(z)
    kw = {}
    if lo is not None:
        kw["bounds"] = (np.asarray(lo)[free], np.asarray(hi)[free])
        q0 = np.clip(p[free], kw["bounds"][0] + 1e-9, kw["bounds"][1] - 1e-9)
    else:
        q0 = p[free]
    r = least_squares(f, q0, xtol=1e-12, ftol=1e-12, gtol=1e-12, **kw)
    z = p.copy()
    z[free] = r.x
    return z, float(2 * r.cost)


def fixed_logz(D, r0, free, w, acc, s, ranges):
    """ exact integral over the (free) parameters of likelihood * uniform prior; r0: residuals with the kept parameters only """
    n = len(r0)
    ww = np.ones(n) if w is None else np.asarray(w, dtype=float)
    sig = s * (np.ones(n) if acc is None else np.asarray(acc) * np.ones(n))
    A = D[:, free] * np.sqrt(ww)[:, None] / sig[:, None]
    b = r0 * np.sqrt(ww) / sig
    norm = -float(np.sum(ww * np.log(np.sqrt(2 * np.pi) * sig)))
    if not free:
        return norm - 0.5 * float(b @ b), 0.0
    # QR : | b - A p |^2 = | R p - q |^2 + rest
    q, R = np.linalg.qr(A)
    t = q.T @ b
    rest = float(b @ b - t @ t)
    lint = 0.5 * len(free) * math.log(2 * math.pi) - float(np.sum(np.log(np.abs(np.diag(R)))))
    return norm - 0.5 * rest + lint - float(np.sum(np.log(ranges[free]))), rest
