"""C31  Problems evaluate residuals, parameters and partials in one convention."""
import math
import warnings
import numpy as np
import BayesicFitting as bf
from BayesicFitting.source.Tools import setAttribute
import expr
import util
import zoo
import wrap
from harness import Case

RULE = "distinct = (problem type, model, kind of weights, kind of accuracy) of which all outputs were compared"
ASSUMPTIONS = ["the reference is direct evaluation with numpy of independent model formulas",
               "residuals of cyclic quantities are brought back by at most one period"]
REQUIRE = {"defaults": 30, "classic": 60, "errorsxy": 60, "multiple": 40, "cyclic": 20, "evidence": 10, "extra": 60, "copies": 100}

SIMPLE = [zoo.polynomial, zoo.gauss, zoo.sine, zoo.exp, zoo.arctan, zoo.etalon, zoo.harmonic, zoo.lorentz]


def spec1(rng):
    r = rng.random()
    if r < 0.3:
        t = expr.tree1d(rng, int(rng.integers(2, 4)), pipes=False)
        seed = int(rng.integers(1 << 30))
        return zoo.Spec("{%s}" % t.text(), lambda **kw: t.build(np.random.default_rng(seed)), t.value, t.pars(), zoo.x1())
    if r < 0.45:
        return zoo.etalondrift(rng)
    return SIMPLE[int(rng.integers(len(SIMPLE)))](rng)


def weights(rng, shape):
    k = int(rng.integers(4))
    if k == 0:
        return "none", None
    if k == 1:
        return "counts", rng.integers(0, 4, shape)
    if k == 2:
        return "list", rng.uniform(0.1, 3, shape).tolist()
    return "array", rng.uniform(0.1, 3, shape)


def accuracy(rng, n):
    k = int(rng.integers(4))
    if k == 0:
        return "none", None
    if k == 1:
        return "scalar", float(rng.uniform(0.1, 2))
    a = rng.uniform(0.1, 2, n)
    return ("list", a.tolist()) if k == 2 else ("array", a)


def common(mon, rng, pr, sp, p, res, w, acc, tag, **ctx):
    """ residuals, weighted squares and counts """
    res = res.reshape(-1)
    n = len(res)
    W = np.ones(n) if w is None else np.asarray(w, dtype=float)
    big = 1 + np.max(np.abs(res))
    tol = dict(rtol=1e-9, atol=max(sp.rtol, 1e-9) * big)
    mon.close(pr.residuals(p.copy()), res, "residuals:" + tag, **tol, **ctx)
    mock = pr.result(p)
    mon.close(pr.residuals(p.copy(), mockdata=mock), res, "residuals-mock:" + tag, **tol, **ctx)
    full = np.append(p, [1.7])                  # with a hyperparameter
    tol = dict(rtol=1e-7, atol=1e-8 * big * big)
    mon.close(pr.weightedResSq(full), W * res ** 2, "weightedResSq:" + tag, **tol, **ctx)
    mon.close(pr.weightedResSq(full, mockdata=mock), W * res ** 2, "weightedResSq-mock:" + tag, **tol, **ctx)
    a, b = pr.weightedResSq(full, extra=True)
    mon.close(a, W * res ** 2, "weightedResSq-extra:" + tag, **tol, **ctx)
    mon.close(b, W * res, "weightedRes-extra:" + tag, **tol, **ctx)
    mon.count("extra")
    mon.close(pr.sumweight, np.sum(W), "sumweight:" + tag, **ctx)
    mon.expect(pr.hasWeights() == (w is not None), "hasWeights:" + tag, **ctx)
    mon.expect(pr.hasAccuracy == (acc is not None), "hasAccuracy:" + tag, **ctx)
    mon.close(pr.varyy + np.zeros(n), (0 if acc is None else np.asarray(acc).reshape(-1) ** 2) + np.zeros(n), "varyy:" + tag, **ctx)
    mon.expect(pr.npars == len(p), "npars:" + tag, "%s is not %d" % (pr.npars, len(p)), **ctx)


def classic(mon, rng, idx):
    sp = spec1(rng)
    n = int(rng.integers(1, 30))
    x = sp.x(rng, n)
    p = np.array(sp.p, dtype=float)
    y = sp.ref(x, p) + rng.normal(size=n)
    wk, w = weights(rng, n)
    ak, acc = accuracy(rng, n)
    q = p * rng.uniform(0.9, 1.1, len(p))
    ctx = {"spec": sp.name, "weights": wk, "accuracy": ak}
    aslist = rng.random() < 0.3
    dyn = rng.random() < 0.2
    with mon.guarded("classic", **ctx):
        m = sp.make()
        pr = bf.ClassicProblem(m, xdata=x.tolist() if aslist else x, ydata=y.tolist() if aslist else y, weights=w, accuracy=acc)
        which = "original"
        for rep in range(2):
            res = y - sp.ref(x, q)
            common(mon, rng, pr, sp, q, res, w, acc, "classic", which=which, **ctx)
            mon.close(pr.result(q.copy()), sp.ref(x, q), "result:classic", rtol=1e-7, atol=1e-7, **ctx)
            mon.close(pr.partial(q.copy()), m.partial(x, q.copy()), "partial:classic", **ctx)
            with np.errstate(all="ignore"):
                ref, g = util.gate(lambda h: util.num_partial(lambda z: sp.ref(x, z), q, h=h), q, 1)
            got = np.asarray(pr.partial(q.copy()))
            if got.shape == ref.shape:
                mon.close(got[g], ref[g], "partial-numeric:classic", rtol=0, atol=1e-4 * (1 + (np.max(np.abs(ref[g])) if g.any() else 0)), **ctx)
            mon.close(pr.derivative(q.copy()), m.derivative(x, q.copy()), "derivative:classic", **ctx)
            mon.expect(pr.ndata == n, "ndata:classic", **ctx)
            pr = pr.copy()
            mon.count("copies")
            which = "copy"
        # other weights: another sum
        w2 = rng.uniform(1, 2, n)
        pr.weights = w2
        mon.close(pr.sumweight, np.sum(w2), "sumweight-reset:classic", **ctx)
        pr.weights = None
        mon.close(pr.sumweight, n, "sumweight-none:classic", **ctx)
        mon.close(pr.weightedResSq(np.append(q, 1.0)), res ** 2, "weights-removed:classic", rtol=1e-7, atol=1e-7 * (1 + np.max(res ** 2)), **ctx)
        mon.expect(pr.myDistribution() == "gauss" and pr.myStartEngine() == "start" and len(pr.myEngines()) > 1, "defaults:classic")
    mon.count("classic")
    mon.state("classic", sp.klass, wk, ak)
    mon.sample("classic problem of %s, weights %s, accuracy %s" % (sp.name, wk, ak))


def newdata(mon, rng, idx):
    """ other data in an existing problem """
    n, k = int(rng.integers(2, 20)), int(rng.integers(2, 20))
    m = bf.PolynomialModel(1)
    pr = bf.ClassicProblem(m, xdata=np.arange(n), ydata=np.zeros(n))
    s = pr.sumweight
    pr.xdata, pr.ydata = np.arange(k), np.ones(k)
    mon.expect(s == n and pr.ndata == k and pr.sumweight == k, "newdata:classic", n=n, k=k, ndata=pr.ndata, sumweight=pr.sumweight)
    mon.state("newdata", n, k)


def cyclic(mon, rng, idx):
    """ differences in a cyclic quantity """
    n = int(rng.integers(2, 20))
    per = float(rng.uniform(0.5, 10))
    x = np.sort(rng.uniform(-3, 3, n))
    p = np.array([rng.uniform(0, per), rng.uniform(-1, 1) * per / 10])
    m = bf.PolynomialModel(1)
    setAttribute(m, "cyclic", per)
    f = p[0] + p[1] * x
    d = rng.uniform(-0.49, 0.49, n) * per            # true distances
    y = f + d + per * rng.integers(-1, 2, n)
    w = rng.uniform(0.1, 2, n) if rng.random() < 0.5 else None
    pr = bf.ClassicProblem(m, xdata=x, ydata=y, weights=w)
    W = np.ones(n) if w is None else w
    for q in (pr, pr.copy()):
        mon.close(q.residuals(p), d, "cyclic", rtol=0, atol=1e-9 * per, period=per)
        mon.close(q.weightedResSq(np.append(p, 1.0)), W * d * d, "cyclic-squares", rtol=1e-7, atol=1e-9 * per ** 2, period=per)
    e = bf.GaussErrorDistribution(scale=1.0)
    want = np.sum(W * (-0.5 * math.log(2 * math.pi) - 0.5 * d * d))
    mon.close(e.logLikelihood(pr, np.append(p, 1.0)), want, "cyclic-likelihood", rtol=1e-7, atol=1e-7, period=per)
    mon.count("cyclic")
    mon.state("cyclic", n, w is None)


def cyclicdict(mon, rng, idx):
    """ outputs with a period of their own next to others without """
    nd = int(rng.integers(2, 5))
    sp = zoo.softmax(rng)
    while sp.ndout < 2:
        sp = zoo.softmax(rng)
    nd = sp.ndout
    n = int(rng.integers(2, 15))
    x = sp.x(rng, n)
    p = np.array(sp.p, dtype=float)
    per = {int(k): float(rng.uniform(0.5, 5)) for k in rng.permutation(nd)[:int(rng.integers(1, nd + 1))]}
    d = rng.uniform(-1.5, 1.5, (n, nd))
    y = sp.ref(x, p) + d
    for k in per:
        d[:, k] = rng.uniform(-0.49, 0.49, n) * per[k]
        y[:, k] = sp.ref(x, p)[:, k] + d[:, k] + per[k] * rng.integers(-1, 2, n)
    with mon.guarded("cyclic-dict", spec=sp.name, cyclic=per):
        m = sp.make()
        setAttribute(m, "cyclic", dict(per))
        pr = bf.MultipleOutputProblem(m, xdata=x, ydata=y)
        for t in range(2):
            res = np.asarray(pr.residuals(p)).reshape(n, nd)
            mon.close(res, d, "cyclic-dict", rtol=0, atol=1e-7, spec=sp.name, cyclic=per)
        mon.close(np.asarray(pr.weightedResSq(np.append(p, 1.0))).reshape(n, nd), d * d, "cyclic-dict-squares", rtol=1e-6, atol=1e-7, cyclic=per)
        mon.close(pr.ydata, y, "cyclic-dict-data", rtol=0)
        e = bf.GaussErrorDistribution(scale=1.0)
        want = np.sum(-0.5 * math.log(2 * math.pi) - 0.5 * d * d)
        mon.close(e.logLikelihood(pr, np.append(p, 1.0)), want, "cyclic-dict-likelihood", rtol=1e-6, atol=1e-6, cyclic=per)
    mon.count("cyclic")
    mon.state("cyclic-dict", nd, tuple(sorted(per)))


def multiple(mon, rng, idx):
    k = int(rng.integers(3))
    if k == 0:
        sp = zoo.stellarorbit(rng)
    elif k == 1:
        sp = zoo.softmax(rng)
        while sp.ndout < 2:
            sp = zoo.softmax(rng)
    else:
        # a classifier at the end of a pipe
        s2 = zoo.softmax(rng)
        while s2.ndout < 2 or s2.ndim != 1:
            s2 = zoo.softmax(rng)
        s1 = zoo.sine(rng)
        n1 = len(s1.p)
        sp = zoo.Spec("pipe(%s,%s)" % (s1.name, s2.name), lambda **kw: s1.make() | s2.make(),
                      lambda x, p: s2.ref(s1.ref(x, p[:n1]), p[n1:]), np.concatenate((s1.p, s2.p)), s1.x, ndout=s2.ndout)
    n = int(rng.integers(2, 20))
    nd = sp.ndout
    x = sp.x(rng, n)
    p = np.array(sp.p, dtype=float)
    f = sp.ref(x, p)
    sph = "sph=True" in sp.name
    y = f + 0.3 * rng.normal(size=f.shape)
    res = y - f
    if sph:
        y[:, 1] += 2 * math.pi * (rng.integers(-1, 2, n))
        res[:, 1] = util.angdiff(res[:, 1])
    wk, w = weights(rng, n if rng.random() < 0.5 else (n, nd))
    ak, acc = accuracy(rng, n if rng.random() < 0.5 else (n, nd))

    def spread(v):
        v = None if v is None else np.asarray(v, dtype=float)
        return v if v is None or v.ndim == 0 else np.repeat(v, nd) if v.ndim == 1 else v.reshape(-1)
    ctx = {"spec": sp.name, "weights": wk, "accuracy": ak}
    with mon.guarded("multiple", **ctx):
        m = sp.make()
        pr = bf.MultipleOutputProblem(m, xdata=x, ydata=y, weights=w, accuracy=acc)
        for q in (pr, pr.copy()):
            if sph:
                # mockdata of angles may differ by a turn: only one turn is corrected
                d = np.abs((y - np.asarray(m.result(x, p)))[:, 1])
                if np.any(d > 3 * math.pi - 0.1):
                    return
            common(mon, rng, q, sp, p, res, spread(w), spread(acc), "multiple", **ctx)
            part = np.asarray(q.partial(p.copy()))
            mon.expect(part.shape == (n * nd, len(p)), "partial-shape:multiple", "%s" % (part.shape,), **ctx)
            if not sph and part.shape == (n * nd, len(p)):
                with np.errstate(all="ignore"):
                    ref, g = util.gate(lambda h: util.num_partial(lambda z: sp.ref(x, z).reshape(-1), p, h=h), p, 1)
                mon.close(part[g], ref[g], "partial:multiple", rtol=0, atol=1e-4 * (1 + np.max(np.abs(ref[g]))), **ctx)
            mon.count("copies")
    mon.count("multiple")
    mon.state("multiple", sp.klass, wk, ak)
    mon.sample("multiple output problem of %s" % sp.name)


def errorsxy(mon, rng, idx):
    sp = SIMPLE[int(rng.integers(len(SIMPLE)))](rng)
    n = int(rng.integers(2, 15))
    x = sp.x(rng, n)
    p = np.array(sp.p, dtype=float)
    y = sp.ref(x, p) + rng.normal(size=n)
    u = x + 0.1 * rng.normal(size=n)
    wk, w = weights(rng, n)
    W = np.ones(n) if w is None else np.asarray(w, dtype=float)
    kind = int(rng.integers(7))
    kw = {}
    sy, sx, rho = rng.uniform(0.1, 2, n), rng.uniform(0.1, 2, n), rng.uniform(-0.9, 0.9, n)
    if kind in (1, 2, 5):
        sy[:], sx[:], rho[:] = sy[0], sx[0], rho[0]
    if kind in (1, 3):
        rho[:] = 0.0
    if kind == 0:
        sy[:] = sx[:] = rho[:] = 0.0
    elif kind == 1:
        kw["accuracy"] = [sy[0], sx[0]]
    elif kind == 2:
        kw["accuracy"] = np.array([sy[0], sx[0], rho[0]])
    elif kind == 3:
        kw["accuracy"] = np.array([sy, sx]).T
    elif kind == 4:
        kw["accuracy"] = np.array([sy, sx, rho]).T.tolist()
    elif kind == 5:
        kw["covar"] = [[sy[0] ** 2, rho[0] * sy[0] * sx[0]], [rho[0] * sy[0] * sx[0], sx[0] ** 2]]
    else:
        kw["covar"] = np.array([[sy ** 2, rho * sy * sx], [rho * sy * sx, sx ** 2]]).transpose(2, 0, 1)
    prior = bf.GaussPrior(scale=0.7) if rng.random() < 0.5 else bf.UniformPrior(limits=[-1, 1])
    ctx = {"spec": sp.name, "weights": wk, "kind": kind}
    with mon.guarded("errorsxy", **ctx):
        m = sp.make()
        m.setLimits(p - 5, p + 5)
        pr = bf.ErrorsInXandYProblem(m, xdata=x, ydata=y, weights=w, prior=prior, **kw)
        for q in (pr, pr.copy()):
            all_ = np.concatenate((p, u))
            s = float(rng.uniform(0.1, 2))
            mon.expect(q.npars == len(all_), "npars:errorsxy", **ctx)
            a, b = q.splitParam(all_.copy())
            mon.expect(np.array_equal(a, u) and np.array_equal(b, p), "split:errorsxy", **ctx)
            f = sp.ref(u, p)
            big = 1 + np.max(np.abs(f))
            mon.close(q.result(all_.copy()), f, "result:errorsxy", rtol=1e-8, atol=1e-8 * big, **ctx)
            mon.close(q.residuals(all_.copy()), y - f, "residuals:errorsxy", rtol=1e-8, atol=1e-8 * big, **ctx)
            yr, xr = q.getXYresiduals(all_.copy())
            mon.close(yr, y - f, "yresiduals:errorsxy", rtol=1e-8, atol=1e-8 * big, **ctx)
            mon.close(xr, x - u, "xresiduals:errorsxy", rtol=1e-8, atol=1e-12, **ctx)
            part = q.partial(all_.copy())
            ref = np.zeros((2 * n, len(p) + n))
            ref[:n, :len(p)] = m.partial(u, p)
            ref[:n, len(p):] = np.diag(np.asarray(m.derivative(u, p)) + np.zeros(n))
            ref[n:, len(p):] = np.eye(n)
            mon.close(part, ref, "partial:errorsxy", rtol=1e-9, atol=1e-12, **ctx)
            # squared distances with the covariance of each point
            d2, gy, gx = np.zeros(n), np.zeros(n), np.zeros(n)
            for i in range(n):
                c = np.array([[sy[i] ** 2, rho[i] * sy[i] * sx[i]], [rho[i] * sy[i] * sx[i], sx[i] ** 2]]) + s * s * np.eye(2)
                r = np.array([y[i] - f[i], x[i] - u[i]])
                z = np.linalg.solve(c, r)
                d2[i], gy[i], gx[i] = r @ z, z[0], z[1]
            full = np.append(all_, s)
            mon.close(q.weightedResSq(full.copy()), W * d2, "weightedResSq:errorsxy", rtol=1e-7, atol=1e-9, **ctx)
            e0, e1, e2 = q.weightedResSq(full.copy(), extra=True)
            mon.close(e0, W * d2, "weightedResSq-extra:errorsxy", rtol=1e-7, atol=1e-9, **ctx)
            mon.close(e1, np.append(W * gy, W * gx), "weightedRes-extra:errorsxy", rtol=1e-7, atol=1e-8, **ctx)
            mon.close(e2, W * ((y - f) ** 2 + (x - u) ** 2), "xyres2-extra:errorsxy", rtol=1e-7, atol=1e-9, **ctx)
            mon.close(q.sumweight, np.sum(W), "sumweight:errorsxy", **ctx)
            mon.expect(q.hasAccuracy == (kind > 0), "hasAccuracy:errorsxy", **ctx)
            # priors of the nuisance parameters are centered on the xdata
            for kp in range(len(all_)):
                uv = float(rng.uniform(0.05, 0.95))
                dv = q.unit2Domain(uv, kp)
                mon.close(q.domain2Unit(dv, kp), uv, "unit:errorsxy", rtol=0, atol=1e-9, **ctx)
                if kp >= len(p):
                    mon.close(dv - x[kp - len(p)], prior.unit2Domain(uv), "prior-centre:errorsxy", rtol=0, atol=1e-9, **ctx)
            mon.count("copies")
    mon.count("errorsxy")
    mon.state("errorsxy", sp.klass, wk, kind)
    mon.sample("errors in x and y of %s, accuracy kind %d" % (sp.name, kind))


def evidence(mon, rng, idx):
    """ evidence problems are classic ones with a dynamic model; copies have a model of their own """
    d = int(rng.integers(1, 4))
    m = bf.PolynomialDynamicModel(d)
    n = int(rng.integers(6, 20))
    x = np.linspace(-1, 1, n)
    y = rng.normal(size=n)
    wk, w = weights(rng, n)
    sp = zoo.Spec("pd", None, lambda x, p: sum(p[k] * x ** k for k in range(len(p))) + 0 * x, rng.normal(size=d + 1), zoo.x1())
    for cls in (bf.EvidenceProblem, bf.ClassicProblem):
        pr = cls(m, xdata=x, ydata=y, weights=w)
        for q in (pr, pr.copy()):
            common(mon, rng, q, sp, sp.p, y - sp.ref(x, sp.p), w, None, cls.__name__)
            mon.expect(type(q) is cls, "copy-type:evidence")
        c = pr.copy()
        c.model.grow()
        mon.expect(pr.npars == d + 1 and c.npars == d + 2, "copy-shares-model:" + cls.__name__, got=(pr.npars, c.npars))
    mon.expect(bf.EvidenceProblem(m, xdata=x, ydata=y).myDistribution() == "model", "default:evidence")
    try:
        bf.EvidenceProblem(bf.PolynomialModel(1), xdata=x, ydata=y)
        mon.expect(False, "static-accepted:evidence")
    except ValueError:
        pass
    mon.count("evidence")
    mon.state("evidence", d, wk)


def defaults(mon, rng, idx):
    """ a sampler takes the engines that the model needs and the distribution that belongs to the problem """
    x = np.linspace(0, 1, 12)
    kn = [0.0, 0.5, 1.0]
    parts = {"poly": (lambda: bf.PolynomialModel(1), False, False),
             "gauss": (lambda: bf.GaussModel(), False, False),
             "dynamic": (lambda: bf.PolynomialDynamicModel(1), True, False),
             "harmonic": (lambda: bf.HarmonicDynamicModel(1), True, False),
             "repeat": (lambda: bf.RepeatingModel(1, bf.GaussModel(), minComp=1, maxComp=4), True, False),
             "splines": (lambda: bf.SplinesDynamicModel(knots=kn), True, True),
             "tree": (lambda: bf.DecisionTreeModel(), True, True)}
    names = list(parts)
    one = names[idx % len(names)]
    terms = [one]
    if one not in ("tree",) and rng.random() < 0.6:
        # static models around it
        terms = [str(rng.choice(["poly", "gauss"])) for _ in range(int(rng.integers(1, 3)))]
        terms.insert(int(rng.integers(len(terms) + 1)), one)
    model = parts[terms[0]][0]()
    for t in terms[1:]:
        model = model + parts[t][0]()
    dyn, mod = parts[one][1:]
    kind = ["classic", "errors", "evidence"][int(rng.integers(3))]
    if kind == "evidence" and not dyn:
        kind = "classic"
    if kind == "errors" and (dyn or mod):
        kind = "classic"
    how = "%s/%s" % (kind, one)
    y = rng.normal(size=12)
    with mon.guarded("defaults:" + how, terms=terms), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind != "evidence":
            for k in range(model.npars):
                model.setPrior(k, bf.UniformPrior(limits=[0.1, 1]))
        mon.expect(model.isDynamic() == dyn, "isdynamic:" + how, terms=terms)
        mon.expect(model.isModifiable() == mod, "ismodifiable:" + how, terms=terms)
        if kind == "evidence":
            pr = bf.EvidenceProblem(model, xdata=x, ydata=y)
            ns = bf.NestedSampler(problem=pr, verbose=0, ensemble=10)
            want = ["Birth", "Death"]
            dist = "ModelDistribution"
        elif kind == "errors":
            ns = bf.NestedSampler(x, model, y, problem="errors", accuracy=np.full((12, 2), 0.1), verbose=0, ensemble=10)
            want, dist = ["Galilean", "Gibbs", "Chord"], "Gauss2dErrorDistribution"
        else:
            ns = bf.NestedSampler(x, model, y, verbose=0, ensemble=10)
            want, dist = ["Galilean", "Chord"] + ["Birth", "Death"] * dyn, "GaussErrorDistribution"
        want = want + ["Structure"] * mod
        got = [type(e).__name__ for e in ns.engines]
        mon.expect(sorted(got) == sorted(w + "Engine" for w in want), "default-engines:" + how, terms=terms, got=got, want=want)
        mon.expect(type(ns.distribution).__name__ == dist, "default-distribution:" + how, got=type(ns.distribution).__name__)
        for e in ns.engines:
            mon.expect(e.walkers is ns.walkers and e.errdis is ns.distribution, "engine-shares:" + how)
        mon.expect(len(set(id(e.rng) for e in ns.engines)) == len(ns.engines), "engine-rng:" + how)
    mon.count("defaults")
    mon.state("defaults", how, len(terms))


CASES = [Case("defaults", defaults, quick=42, thorough=420, chunk=21), Case("classic", classic, quick=150, thorough=2500, chunk=10), Case("newdata", newdata, quick=10, thorough=50, chunk=10),
         Case("cyclicdict", cyclicdict, quick=40, thorough=500, chunk=20), Case("cyclic", cyclic, quick=40, thorough=500, chunk=20), Case("multiple", multiple, quick=120, thorough=2000, chunk=10),
         Case("errorsxy", errorsxy, quick=140, thorough=2500, chunk=10), Case("evidence", evidence, quick=20, thorough=200, chunk=10)]
