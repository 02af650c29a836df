"""Random likelihood problems with independent (scipy.stats) log densities."""
import math
import numpy as np
from scipy import stats
import BayesicFitting as bf

KINDS = ["gauss", "laplace", "cauchy", "uniform", "exponential", "poisson", "bernoulli", "mixed", "gauss2d"]
CLASS = {"gauss": bf.GaussErrorDistribution, "laplace": bf.LaplaceErrorDistribution, "cauchy": bf.CauchyErrorDistribution,
         "uniform": bf.UniformErrorDistribution, "exponential": bf.ExponentialErrorDistribution,
         "poisson": bf.PoissonErrorDistribution, "bernoulli": bf.BernoulliErrorDistribution,
         "gauss2d": bf.Gauss2dErrorDistribution}
ACCEPT = {"gauss": True, "laplace": True, "uniform": True, "exponential": True, "gauss2d": True,
          "cauchy": False, "poisson": False, "bernoulli": False}
NHYP = {"gauss": 1, "laplace": 1, "cauchy": 1, "uniform": 1, "exponential": 2, "poisson": 0, "bernoulli": 0, "gauss2d": 1}
CANWEIGHT = {k for k in ACCEPT if ACCEPT[k]}


def hypers(rng, kind):
    if NHYP[kind] == 0:
        return []
    if kind == "exponential":
        return [float(np.exp(rng.uniform(-0.7, 0.9))), float(rng.uniform(1.05, 4.0))]
    return [float(np.exp(rng.uniform(-0.7, 0.9)))]


def logpdf(kind, r, hyp, acc):
    """ log density of the residuals r; acc None or array """
    if kind == "gauss":
        return stats.norm.logpdf(r, scale=np.sqrt(hyp[0] ** 2 + (0 if acc is None else acc ** 2)))
    s = hyp[0] if acc is None else acc
    if kind == "laplace":
        return -np.log(2 * s) - np.abs(r) / s          # scipy takes the log of an underflowing density
    if kind == "cauchy":
        return stats.cauchy.logpdf(r, scale=s)
    if kind == "uniform":
        return stats.uniform.logpdf(r, loc=-s, scale=2 * np.asarray(s))
    if kind == "exponential":
        return stats.gennorm.logpdf(r, hyp[1], scale=s)
    raise KeyError(kind)


class Setup(object):
    """ errdis, problem, allpars (start) and ref( allpars ) = log likelihood per point """


def classic_model(rng, positive=False):
    """ (model, x, params) smooth models in various forms """
    n = int(rng.integers(5, 30))
    k = int(rng.integers(0, 8))
    x = np.sort(rng.uniform(-2, 3, n))
    if positive:
        if k % 2:
            return "exp", bf.ExpModel(), x, np.array([rng.uniform(1, 9), rng.uniform(-0.6, 0.4)])
        m = bf.GaussModel() + bf.ConstantModel(values=0.0) + bf.PolynomialModel(0)
        return "gauss+const", m, x, np.array([rng.uniform(2, 9), rng.uniform(-1, 1), rng.uniform(0.5, 1.5), rng.uniform(0.5, 4)])
    if k == 0:
        return "poly", bf.PolynomialModel(2), x, rng.normal(0, 1, 3)
    if k == 1:
        return "gauss+poly", bf.GaussModel() + bf.PolynomialModel(1), x, np.array([2.0, 0.3, 0.8, 1.0, -0.3]) + rng.normal(0, 0.1, 5)
    if k == 2:
        return "sine", bf.SineModel(), x, np.array([0.4, 1.0, 0.5]) + rng.normal(0, 0.1, 3)
    if k == 3:
        return "fixed", bf.PolynomialModel(3, fixed={1: 0.7}), x, rng.normal(0, 1, 3)
    if k == 4:
        return "poly*exp", bf.PolynomialModel(1) * bf.ExpModel(), x, np.array([1.0, 0.5, 1.0, 0.2]) + rng.normal(0, 0.1, 4)
    if k == 5:
        return "surface", bf.PolySurfaceModel(1), rng.uniform(-2, 2, (n, 2)), rng.normal(0, 1, 3)
    if k == 6:
        return "arctan", bf.ArctanModel(), x, np.array([1.0, 0.3, 1.2]) + rng.normal(0, 0.1, 3)
    return "spline", bf.SplinesModel(knots=np.linspace(-2.5, 3.5, 4)), x, rng.normal(0, 1, 6)


def orbit(rng):
    n = int(rng.integers(4, 12))
    m = bf.StellarOrbitModel(spherical=True)
    x = np.sort(rng.uniform(0, 9, n))
    p = np.array([rng.uniform(0.05, 0.6), rng.uniform(0.5, 2), rng.uniform(3, 9), rng.uniform(0, 6), rng.uniform(0.3, 2.5),
                  rng.uniform(0, 6), rng.uniform(0, 6)])
    return "orbit", m, x, p


def softmax(rng):
    n = int(rng.integers(6, 20))
    ndim = int(rng.integers(1, 3))
    nd = int(rng.integers(2, 5))
    m = bf.SoftMaxModel(ndim=ndim, ndout=nd, offset=True, normed=True)
    x = rng.normal(0, 1, n) if ndim == 1 else rng.normal(0, 1, (n, ndim))
    return "softmax%d" % nd, m, x, rng.normal(0, 0.7, m.npars)


def wrapped(r, cyc):
    """ residuals, flattened over the outputs, in a cyclic output brought to the nearest turn """
    r = np.array(r, dtype=float)
    if cyc:
        for c, per in cyc.items():
            r[:, c] = (r[:, c] + per / 2) % per - per / 2
    return r.reshape(-1)


def make(rng, kind, forms=None):
    """ forms: dict with forced choices: weights, accuracy, problem, mixed """
    f = dict(forms or {})
    s = Setup()
    s.kind = kind
    if kind == "gauss2d":
        return make2d(rng, f)
    kinds = [kind]
    if kind == "mixed":
        kinds = f.get("mixed") or [["gauss", "laplace", "cauchy", "uniform", "exponential"][int(rng.integers(5))] for k in range(2)]
    disc = kind in ("poisson", "bernoulli")
    multi = (not disc) and rng.random() < 0.25
    cyc = None
    if kind == "bernoulli" and rng.random() < 0.5:
        name, m, x, p = softmax(rng)
    elif kind == "bernoulli":
        name, m, x, p = "logistic", bf.LogisticModel(fixed={0: 1.0}), None, None
        n = int(rng.integers(6, 25))
        x = np.sort(rng.uniform(-2, 2, n))
        p = np.array([rng.uniform(-1, 1), rng.uniform(0.3, 2)])
    elif kind == "poisson":
        name, m, x, p = classic_model(rng, positive=True)
    elif multi:
        name, m, x, p = orbit(rng)
        cyc = {1: 2 * math.pi}
    else:
        name, m, x, p = classic_model(rng)
    mock = np.asarray(m.result(x, p), dtype=float)
    n = len(mock)
    acc = None
    if not disc:
        a = f.get("accuracy", int(rng.integers(0, 3)))
        if a == 1:
            acc = float(np.exp(rng.uniform(-0.8, 0.8)))
        elif a == 2:
            acc = np.exp(rng.uniform(-0.8, 0.8, n if not multi or rng.random() < 0.5 else mock.shape))
    w = None
    a = f.get("weights", int(rng.integers(0, 4)))
    if a:
        w = rng.uniform(0.2, 3, n) if a == 1 else rng.integers(1, 4, n).astype(float)
        if a == 3:
            w[rng.integers(0, n)] = 0.0
        if multi and rng.random() < 0.5:
            w = np.outer(w, [1.0, 2.0])
    hyp = [hypers(rng, k) for k in kinds]
    frac = float(rng.uniform(0.05, 0.95))
    dat = None
    if kind == "poisson":
        # counts from zero to thousands, not necessarily near the model
        dat = rng.poisson(mock * [1, 1, 20, 300][int(rng.integers(4))]).astype(float)
    elif kind == "bernoulli":
        if mock.ndim == 1:
            dat = (rng.random(n) > mock).astype(int)
        else:
            dat = np.array([rng.choice(mock.shape[1], p=q / q.sum()) for q in mock])
        if rng.random() < 0.3:
            dat = dat.astype(float)
    else:
        mx = 1.0
        if "uniform" in kinds:
            mx = 0.98 * min([np.min(acc if acc is not None else h[0]) for h, k in zip(hyp, kinds) if k == "uniform"])
            noise = rng.uniform(-mx, mx, mock.shape)
            if rng.random() < 0.15:
                noise.reshape(-1)[rng.integers(0, noise.size)] = 9.0
        else:
            noise = rng.standard_t(3, mock.shape)
        dat = mock + noise
        if cyc:
            dat[:, 1] = mock[:, 1] + 0.3 * np.clip(noise[:, 1], -6, 6)
            dat[:, 1] %= 2 * math.pi
    full = lambda v: None if v is None else (np.repeat(np.atleast_1d(v).astype(float), mock.shape[1]) if multi and np.ndim(v) == 1
                                             else np.asarray(v, dtype=float).reshape(-1))
    facc = full(acc) if np.ndim(acc) else acc
    fw = full(w)
    P = bf.MultipleOutputProblem if multi else bf.ClassicProblem
    s.text = "%s of %s%s%s%s" % ("+".join(kinds), name, "" if w is None else " weights%d" % a,
                                 "" if acc is None else " accuracy(%s)" % (np.shape(acc),), " n=%d" % n)
    s.tag = "/".join([kind if kind != "mixed" else "mixed", "multi" if mock.ndim > 1 else "single"])
    s.form = (tuple(kinds), name, a, 0 if acc is None else 1 + np.ndim(acc))
    s.problem = P(model=m, xdata=x, ydata=dat, weights=w, accuracy=acc)
    if kind == "mixed":
        s.errdis = bf.MixedErrorDistribution(*[CLASS[k]() for k in kinds], fraction=frac)
        allh = sum(hyp, []) + [frac]
    else:
        s.errdis = CLASS[kind]()
        allh = hyp[0]
    s.accept = all(ACCEPT[k] for k in kinds)
    np_ = len(p)

    def ref(q):
        pp, hh = np.asarray(q[:np_]), list(q[np_:])
        mk = np.asarray(m.result(x, pp), dtype=float)
        with np.errstate(all="ignore"):
            if kind == "poisson":
                l = np.where(mk > 0, stats.poisson.logpmf(dat, np.where(mk > 0, mk, 1)), -np.inf)
            elif kind == "bernoulli":
                if mk.ndim == 1:
                    l = stats.bernoulli.logpmf((dat == 0).astype(int), mk)
                else:
                    l = np.log(mk[np.arange(n), dat.astype(int)])
            else:
                r = wrapped(dat - mk, cyc)
                if kind == "mixed":
                    n1 = NHYP[kinds[0]]
                    l1 = logpdf(kinds[0], r, hh[:n1], facc)
                    l2 = logpdf(kinds[1], r, hh[n1:-1], facc)
                    l = np.logaddexp(l1 + math.log(hh[-1]), l2 + math.log(1 - hh[-1]))
                else:
                    l = logpdf(kind, r, hh, facc)
            if fw is not None and s.accept:
                l = np.where(fw == 0, 0.0, l * np.where(fw == 0, 1, fw))
        return l
    s.ref = ref
    s.allpars = np.append(np.asarray(p, dtype=float), allh)
    s.params, s.hyp, s.model, s.x, s.y, s.w, s.acc, s.fw, s.facc = np.asarray(p, dtype=float), allh, m, x, dat, w, acc, fw, facc
    s.kinds, s.cyc, s.multi, s.mock = kinds, cyc, multi, mock
    s.npars = np_
    s.nhyp = len(allh)
    return s


def make2d(rng, f):
    """ errors in x and y """
    s = Setup()
    s.kind = "gauss2d"
    name, m, x, p = [("poly", bf.PolynomialModel(2), None, rng.normal(0, 1, 3)),
                     ("gauss", bf.GaussModel(), None, np.array([2.0, 0.1, 1.1])),
                     ("sine", bf.SineModel(), None, np.array([0.2, 1.0, 0.4]))][int(rng.integers(3))]
    n = int(rng.integers(4, 12))
    x = np.sort(rng.uniform(-2, 3, n))
    form = f.get("accuracy", int(rng.integers(0, 8)))
    kw = {}
    one = np.ones(n)
    cov = np.zeros((n, 2, 2))
    if form in (1, 2):
        nc = form + 1
        acc = np.append(np.exp(rng.uniform(-1, 0.5, 2)), rng.uniform(-0.9, 0.9, nc - 2))
        kw["accuracy"] = acc if rng.random() < 0.5 else [float(v) for v in acc]
        A = np.outer(one, acc)
    elif form in (3, 4):
        nc = form - 1
        A = np.concatenate((np.exp(rng.uniform(-1, 0.5, (n, 2))), rng.uniform(-0.9, 0.9, (n, nc - 2))), axis=1)
        kw["accuracy"] = A.copy()
    elif form in (5, 6):
        A = np.concatenate((np.exp(rng.uniform(-1, 0.5, (n, 2))), rng.uniform(-0.9, 0.9, (n, 1))), axis=1)
        if form == 5:
            A[:] = A[0]
    elif form == 7:
        a = float(np.exp(rng.uniform(-1, 0.5)))
        kw["accuracy"] = a
        A = np.full((n, 2), a)
    else:
        A = np.zeros((n, 2))
    rho = A[:, 2] if A.shape[1] == 3 else np.zeros(n)
    cov[:, 0, 0] = A[:, 0] ** 2
    cov[:, 1, 1] = A[:, 1] ** 2
    cov[:, 0, 1] = cov[:, 1, 0] = A[:, 0] * A[:, 1] * rho
    if form == 5:
        kw["covar"] = cov[0].copy()
    elif form == 6:
        kw["covar"] = cov.copy()
    scale = float(np.exp(rng.uniform(-1, 0.5)))
    a = f.get("weights", int(rng.integers(0, 4)))
    w = None
    if a:
        w = rng.uniform(0.2, 3, n) if a == 1 else rng.integers(1, 4, n).astype(float)
        if a == 3:
            w[rng.integers(0, n)] = 0.0
    u = x + rng.normal(0, 0.3, n)
    y = np.asarray(m.result(u, p)) + rng.normal(0, 0.5, n)
    s.text = "gauss2d of %s form %d weights %d n=%d" % (name, form, a, n)
    s.tag = "gauss2d"
    s.form = ("gauss2d", name, a, form)
    s.problem = bf.ErrorsInXandYProblem(model=m, xdata=x, ydata=y, weights=w, prior=bf.GaussPrior(scale=1.0), **kw)
    s.errdis = bf.Gauss2dErrorDistribution()
    s.accept = True
    s.allpars = np.concatenate((p, u, [scale]))
    s.params, s.hyp, s.model, s.x, s.y, s.w, s.fw = np.append(p, u), [scale], m, x, y, w, w
    s.kinds, s.multi, s.cyc = ["gauss2d"], False, None
    k = len(p)
    s.npars, s.nhyp = k + n, 1

    def ref(q):
        pp, uu, sc = q[:k], q[k:k + n], q[-1]
        r = np.stack([y - np.asarray(m.result(uu, pp)), x - uu], axis=1)
        C = cov + sc * sc * np.eye(2)
        l = np.array([stats.multivariate_normal.logpdf(r[i], cov=C[i]) for i in range(n)])
        return l if w is None else l * w
    s.ref = ref
    return s
