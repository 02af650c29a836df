"""C29  Data and parameters supplied by the user are not altered."""
import contextlib
import io
import warnings
import numpy as np
import BayesicFitting as bf
from BayesicFitting.source.ConvergenceError import ConvergenceError
import errdis
import expr
import fits
import nsrun
import priors as pri
import util
import zoo
import wrap
from harness import Case

RULE = "distinct = (action, form of the supplied data) of which all supplied objects were compared byte by byte"
ASSUMPTIONS = ["models are given away to fitters, samplers, and other models; of them only parameters and standard deviations may change",
               "integer data are used as the same real numbers"]
REQUIRE = {"snapshots": 2000, "fits": 100, "forms": 100, "samplers": 6, "models": 200, "readonly": 50}


def freeze(v):
    """ a value that represents the complete content of v """
    if isinstance(v, np.ndarray):
        return ("array", v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((k, freeze(x)) for k, x in v.items())
    return repr(v)


class Watch(object):
    """ all supplied things """
    def __init__(self, mon, tag, **things):
        self.mon, self.tag, self.things = mon, tag, things
        self.before = {k: freeze(v) for k, v in things.items() if v is not None}

    def check(self, where):
        for k, b in self.before.items():
            self.mon.count("snapshots")
            self.mon.expect(freeze(self.things[k]) == b, "altered:%s:%s" % (self.tag, k.rstrip("0123456789")), "%s was altered by %s" % (k, where),
                            now=self.things[k])


def form(rng, a, kinds=("plain", "list", "strided", "readonly", "int", "fortran")):
    """ the same numbers in another container """
    k = str(rng.choice(kinds))
    a = np.array(a)
    if k == "list":
        return k, a.tolist()
    if k == "strided":
        b = np.empty((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
        b[::2] = a
        return k, b[::2]
    if k == "readonly":
        a.flags.writeable = False
        return k, a
    if k == "int" and np.all(a == np.round(a)):
        return k, a.astype(int)
    if k == "fortran" and a.ndim == 2:
        return k, np.asfortranarray(a)
    return "plain", a


def modelstate(m):
    return (str(m), m.npars, m.chainLength(), [m.getParameterName(k) for k in range(m.npars)],
            bool(m.hasPriors(isBound=False)) and m.npars > 0 and [pri_text(m.getPrior(k)) for k in range(m.npars)])


def pri_text(p):
    return (type(p).__name__, repr(p.lowLimit), repr(p.highLimit))


FITTERS = {"Fitter": bf.Fitter, "QR": bf.QRFitter, "Curve": bf.CurveFitter, "LM": bf.LevenbergMarquardtFitter,
           "Amoeba": bf.AmoebaFitter, "NelderMead": bf.NelderMeadFitter, "Powell": bf.PowellFitter,
           "CG": bf.ConjugateGradientFitter, "BFGS": bf.BfgsFitter, "Newton": bf.NewtonCgFitter, "LBFGS": bf.LbfgsbFitter,
           "TNC": bf.TncFitter, "Cobyla": bf.CobylaFitter, "SLSQP": bf.SlsqpFitter}


def fitters(mon, rng, idx):
    fname = list(FITTERS)[idx % len(FITTERS)]
    rounded = rng.random() < 0.4
    if fname in ("Fitter", "QR") or rng.random() < 0.4:
        for tries in range(20):
            name, make, x = fits.linear_model(rng)
            D, off = fits.design(make(), x)
            if 1 < D.shape[1] < 7 and len(x) > 3 * D.shape[1]:
                break
        else:
            return
        truth = rng.normal(0, 1.5, D.shape[1])
        if rounded and np.ndim(x) == 1 and "poly" in name and "cheb" not in name:
            x = np.round(x * 3)
        y = np.asarray(make().result(x, truth)) + 0.3 * rng.normal(size=len(x))
    else:
        name, make, x, truth = fits.nonlinear_model(rng)
        truth = np.array(truth)
        if len(truth) < 2:
            return
        y = np.asarray(make().result(x, truth)) + 0.1 * rng.normal(size=len(x))
    if rounded:
        y = np.round(10 * y)
        truth = truth * 1.0
    n, npar = len(x), len(truth)
    w = fits.values(rng, n, "weights")
    acc = fits.values(rng, n, "accuracy")
    if rounded and w is not None:
        w = np.maximum(np.round(w), 1)
    keep = {int(rng.integers(npar)): float(truth[0])} if npar > 2 and rng.random() < 0.4 else None
    start = truth * (1 + 0.05 * rng.normal(size=npar))
    fx, X = form(rng, x)
    fy, Y = form(rng, y)
    fw, W = ("none", None) if w is None else form(rng, w)
    fa, A = ("none", None) if acc is None else (("scalar", acc) if np.ndim(acc) == 0 else form(rng, acc))
    fp, P = form(rng, start, ("plain", "list", "strided"))
    ctx = {"fitter": fname, "model": name, "forms": (fx, fy, fw, fa, fp)}
    m = make()
    how = int(rng.integers(3))
    kw, ckw = {}, {}
    if how == 0 and not isinstance(P, list):
        m.parameters = P
    elif fname in ("Fitter", "QR"):
        P = None
    else:
        kw["inipar" if fname == "Curve" else "par0"] = P
    if keep is not None:
        (ckw if rng.random() < 0.3 else kw)["keep"] = keep
    if fname == "Amoeba":
        kw["seed"] = 5
    lims = [[-1e3] * npar, [1e3] * npar]
    watch = Watch(mon, fname, xdata=X, data=Y, weights=W, accuracy=A, parameters=P, keep=keep, limits=lims)
    before = modelstate(m)
    tag = "%s" % fname
    if any(f == "readonly" for f in ctx["forms"]):
        mon.count("readonly")
    with warnings.catch_warnings(), mon.guarded("error:" + fname, **ctx):
        warnings.simplefilter("ignore")
        ft = FITTERS[fname](X, m, **ckw)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                got = ft.fit(Y, weights=W, accuracy=A, **kw)
            except (ConvergenceError, np.linalg.LinAlgError, RuntimeError):
                watch.check("a failing fit")
                mon.count("failing fits")
                return
        watch.check("fit")
        chisq = ft.chisq
        mon.count("fits")
        user = [v for v in (X, Y, W, A, P) if isinstance(v, np.ndarray)]
        mon.expect(not any(np.shares_memory(m.parameters, v) for v in user), "aliased:" + tag,
                   "parameters of the model share memory with supplied data", **ctx)
        with contextlib.redirect_stdout(io.StringIO()):
            for nm, call in (("chiSquared", lambda: ft.chiSquared(Y, weights=W)), ("getHessian", lambda: ft.getHessian()),
                             ("covariance", lambda: ft.covariance), ("stdevs", lambda: ft.stdevs), ("scale", lambda: ft.scale),
                             ("getEvidence", lambda: ft.getEvidence(limits=lims)),
                             ("getLogZ", lambda: ft.getLogZ(limits=lims, noiseLimits=[0.01, 10.0])),
                             ("yfit", lambda: ft.yfit), ("monteCarloError", lambda: ft.monteCarloError(X)),
                             ("getDesign", lambda: ft.getDesign())):
                try:
                    call()
                except np.linalg.LinAlgError:
                    pass
                watch.check(nm)
        after = modelstate(m)
        mon.expect(before[1:] == after[1:] and before[0] == after[0], "model-altered:" + fname, "%s became %s" % (before, after), **ctx)
        # the same with clean arrays of real numbers gives the same answer
        m2 = make()
        kw2 = dict(kw)
        if how == 0 and not isinstance(P, list) and P is not None:
            m2.parameters = np.array(start)
        if "par0" in kw2 or "inipar" in kw2:
            kw2["inipar" if fname == "Curve" else "par0"] = np.array(start)
        f2 = FITTERS[fname](np.array(x, dtype=float), m2, **ckw)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                ref = f2.fit(np.array(y, dtype=float), weights=None if w is None else np.array(w, dtype=float),
                             accuracy=None if acc is None else acc if np.ndim(acc) == 0 else np.array(acc), **kw2)
            except (ConvergenceError, np.linalg.LinAlgError, RuntimeError):
                return
        if fname in ("Fitter", "QR", "LM", "Curve"):           # the others stop where the last bits lead them
            mon.close(got, ref, "form:" + fname, rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(ref))), **ctx)
            mon.close(chisq, f2.chisq, "form-chisq:" + fname, rtol=1e-6, atol=1e-9, **ctx)
        else:
            mon.close(chisq, f2.chisq, "form-chisq:" + fname, rtol=1e-2, atol=1e-6, **ctx)
        mon.count("forms")
    mon.state("fit", fname, fx, fy, fw, fa, fp, how)
    mon.sample("%s on %s, supplied as %s" % (fname, name, ctx["forms"]))


def robust(mon, rng, idx):
    """ robust fitting, normalised fitting, images """
    name, make, x = fits.linear_model(rng)
    D, off = fits.design(make(), x)
    n, npar = D.shape
    if npar < 1 or n < 3 * npar:
        return
    truth = rng.normal(0, 1.5, npar)
    y = off + D @ truth + 0.2 * rng.normal(size=n)
    y[:2] += 5
    fy, Y = form(rng, y)
    fw, W = form(rng, rng.uniform(0.5, 2, n))
    fx, X = form(rng, x)
    with warnings.catch_warnings(), mon.guarded("error:robust", model=name, forms=(fx, fy, fw)):
        warnings.simplefilter("ignore")
        watch = Watch(mon, "RobustShell", xdata=X, data=Y, weights=W)
        rob = bf.RobustShell(bf.Fitter(X, make()), domain=4)
        try:
            rob.fit(Y, weights=W)
        except (ConvergenceError, np.linalg.LinAlgError):
            pass
        watch.check("robust fit")
        dfdp = np.ones(npar).tolist()
        watch = Watch(mon, "normalize", xdata=X, data=Y, weights=W, dfdp=dfdp)
        ft = bf.Fitter(X, make())
        ft.normalize(dfdp, 1.0, weight=10.0)
        try:
            ft.fit(Y, weights=W)
        except np.linalg.LinAlgError:
            pass
        watch.check("normalised fit")
    # a map
    img = rng.normal(size=(int(rng.integers(3, 8)), int(rng.integers(3, 8))))
    img = np.round(img * 5) if rng.random() < 0.5 else img
    fi, I = form(rng, img, ("plain", "readonly", "fortran", "int", "strided"))
    wi = rng.uniform(0.5, 2, img.shape)
    with mon.guarded("error:map", form=fi):
        watch = Watch(mon, "map", image=I, weights=wi)
        m = bf.PolySurfaceModel(1)
        ft = bf.Fitter(I, m, map=True)
        ft.fit(I, weights=wi)
        ft.yfit
        watch.check("map fit")
        m2 = bf.PolySurfaceModel(1)
        ref = bf.Fitter(np.array(img), m2, map=True).fit(np.array(img), weights=wi.copy())
        mon.close(m.parameters, ref, "form:map", rtol=1e-9, atol=1e-9, form=fi)
    mon.count("forms")
    mon.state("robust", name, fx, fy, fw, fi)


def models(mon, rng, idx):
    """ evaluation of models : nothing changes and the form of the input does not matter """
    entries = zoo.ALL + wrap.WRAP
    entry = entries[idx % len(entries)]
    sp = entry(rng)
    n = int(rng.integers(2, 12))
    x = sp.x(rng, n)
    fixed = getattr(sp, "defaultfix", {})
    p = zoo.freeparams(sp, fixed)
    m = sp.make()
    if m.npars != len(p):
        return
    integer = rng.random() < 0.3 and np.ndim(x) == 1 and entry is not zoo.football
    if integer:
        xi = np.unique(np.round(x))
        if np.all((xi >= np.min(x) - 1e-9) & (xi <= np.max(x) + 1e-9)) and len(xi) > 1 and np.all(np.isfinite(sp.ref(xi, sp.p))):
            x = xi
    kinds = ("plain", "strided", "readonly", "int", "fortran") + (("list",) if np.ndim(x) == 1 else ())
    fx, X = form(rng, x, kinds)
    fp, P = form(rng, p, ("plain", "list", "strided"))         # negative values are corrected in place, as documented
    own = np.array(m.parameters)
    ctx = {"spec": sp.name, "forms": (fx, fp), "x": x}
    watch = Watch(mon, sp.klass, xdata=X, parameters=P)
    with np.errstate(all="ignore"):
        ref = np.asarray(m.result(np.array(x), np.array(p)), dtype=float)
        refp = util.stack_partial(m.partial(np.array(x), np.array(p)), sp.ndout)
    st = modelstate(m)
    with mon.guarded("error:" + sp.klass, **ctx), np.errstate(all="ignore"):
        Pn = P if isinstance(P, np.ndarray) else np.array(P)
        got = np.asarray(m.result(X, P if fp != "list" else Pn), dtype=float)
        watch.check("result")
        mon.close(got, ref, "form-result:" + sp.klass, rtol=1e-10, atol=1e-12 * (1 + np.max(np.abs(ref))), **ctx)
        gotp = util.stack_partial(m.partial(X, Pn), sp.ndout)
        watch.check("partial")
        mon.close(gotp, refp, "form-partial:" + sp.klass, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(refp)) if refp.size else 1), **ctx)
        if entry is not zoo.football:
            refd = np.asarray(m.derivative(np.array(x, dtype=float), np.array(p)), dtype=float)
            gotd = np.asarray(m.derivative(X, Pn), dtype=float)
            watch.check("derivative")
            mon.close(gotd, refd, "form-derivative:" + sp.klass, rtol=1e-7, atol=1e-6 * (1 + np.max(np.abs(refd))), **ctx)
        m.strictNumericPartial(X, Pn)
        watch.check("strictNumericPartial")
        mon.expect(np.array_equal(m.parameters, own), "evaluation-changes-parameters:" + sp.klass, **ctx)
        m.parameters = Pn
        r = m(X)
        watch.check("call")
        mon.close(np.asarray(r, dtype=float), ref, "form-call:" + sp.klass, rtol=1e-10, atol=1e-12 * (1 + np.max(np.abs(ref))), **ctx)
        mon.expect(modelstate(m) == st, "model-altered:" + sp.klass, **ctx)
    mon.count("models")
    mon.state("model", sp.klass, fx, fp)
    mon.sample("%s evaluated with input as %s" % (sp.name, fx))


def settings(mon, rng, idx):
    """ lists with limits, priors, fixed parameters, knots """
    npar = 3
    lo, hi = rng.uniform(-3, -1, npar), rng.uniform(1, 3, npar)
    f1, L = form(rng, lo, ("plain", "list", "readonly", "strided"))
    f2, H = form(rng, hi, ("plain", "list", "readonly", "strided"))
    fix = {0: 1.5}
    kn = np.linspace(-2, 2, 4)
    fk, K = form(rng, kn, ("plain", "list", "readonly", "strided"))
    with mon.guarded("error:settings"):
        m = bf.PolynomialModel(2)
        q = bf.PolynomialModel(2, fixed=fix)
        s = bf.SplinesModel(knots=K)
        watch = Watch(mon, "settings", low=L, high=H, fixed=fix, knots=K)
        m.setLimits(L, H)
        watch.check("setLimits")
        u = rng.uniform(0.1, 0.9, npar)
        fu, Uu = form(rng, u, ("plain", "readonly", "strided"))
        watch = Watch(mon, "unit", u=Uu, low=L, high=H)
        d = m.unit2Domain(Uu)
        watch.check("unit2Domain")
        watch2 = Watch(mon, "unit", d=d)
        m.domain2Unit(d)
        watch2.check("domain2Unit")
        m.partialDomain2Unit(d)
        watch2.check("partialDomain2Unit")
        mon.close(d, lo + u * (hi - lo), "settings-limits")
        m += q
        m += s
        watch = Watch(mon, "settings", low=L, high=H, fixed=fix, knots=K)
        x = np.linspace(-1.5, 1.5, 6)
        m.result(x, np.ones(m.npars))
        c = m.copy()
        c.parameters = np.ones(m.npars)
        ft = bf.LevenbergMarquardtFitter(x, bf.SplinesModel(knots=K))
        watch.check("splines, copies and chains")
        # a changed copy of user lists after use does not change the model
        if isinstance(L, list):
            L[0] = 77.0
            pr = m.getPrior(0)
            mon.close(pr.lowLimit, lo[0], "limits-linked")
    for kind in (bf.UniformPrior, bf.GaussPrior, bf.LaplacePrior, bf.CauchyPrior):
        lim = [-1.0, 2.0]
        watch = Watch(mon, kind.__name__, limits=lim)
        p = kind(limits=lim)
        u = np.linspace(0.01, 0.99, 7)
        u.flags.writeable = False
        with mon.guarded("error:prior", prior=kind.__name__):
            d = p.unit2Domain(u)
            d = np.asarray(d)
            w2 = Watch(mon, kind.__name__, domain=d)
            p.domain2Unit(d)
            p.result(d) if kind is bf.UniformPrior else [p.result(v) for v in d]
            p.partialLog(d) if kind is bf.UniformPrior else [p.partialLog(v) for v in d]
            p.logResult(d[2])
            w2.check("prior functions")
        watch.check("prior")
    mon.state("settings", f1, f2, fk)


def likelihoods(mon, rng, idx):
    kind = errdis.KINDS[idx % len(errdis.KINDS)]
    s = errdis.make(rng, kind)
    pr = s.problem
    ap = np.array(s.allpars, dtype=float)
    for f in ("xdata", "ydata", "weights", "accuracy"):
        v = getattr(pr, f, None)
        if isinstance(v, np.ndarray) and v.ndim > 0 and v.base is None:
            v.flags.writeable = False
    watch = Watch(mon, kind, xdata=pr.xdata, ydata=pr.ydata, weights=pr.weights, allpars=ap, varyy=getattr(pr, "varyy", None))
    e = s.errdis
    fi = np.append(np.arange(s.npars), np.arange(-s.nhyp, 0)) if rng.random() < 0.7 else np.arange(s.npars)
    fi0 = fi.copy()
    with mon.guarded("error:" + kind, text=s.text):
        for nm in ("logLikelihood", "logLdata", "logLikelihood_alt"):
            if hasattr(e, nm):
                getattr(e, nm)(pr, ap)
                watch.check(nm)
        for nm in ("partialLogL", "partialLogL_alt"):
            if hasattr(e, nm):
                getattr(e, nm)(pr, ap, fi)
                watch.check(nm)
        if hasattr(e, "nextPartialData"):
            list(e.nextPartialData(pr, ap, fi))
            watch.check("nextPartialData")
        if kind not in ("bernoulli", "gauss2d", "poisson", "mixed"):
            e.getScale(pr, ap)
            watch.check("getScale")
        mon.expect(np.array_equal(fi, fi0), "altered:%s:fitIndex" % kind)
    mon.count("readonly")
    mon.state("likelihood", kind, s.text)


def samplers(mon, rng, idx):
    """ short runs of the samplers """
    r = nsrun.make(rng, None if idx % 2 else "gauss", small=True)
    pr = r.problem
    seed = int(rng.integers(1000))
    lims = None
    keep = None
    watch = Watch(mon, "NestedSampler", xdata=pr.xdata, ydata=pr.ydata, weights=pr.weights, limits=lims)
    st = modelstate(r.model)
    with mon.guarded("error:NestedSampler", text=r.text), contextlib.redirect_stdout(io.StringIO()):
        ns = bf.NestedSampler(problem=pr, distribution=r.errdis, ensemble=12, verbose=0, seed=seed, rate=1.0)
        ns.end = 0.5
        try:
            ns.sample()
        except RuntimeError:                        # no start position with a likelihood
            mon.count("failing samplers")
        watch.check("NestedSampler.sample")
        mon.expect(modelstate(r.model) == st, "model-altered:NestedSampler", text=r.text)
        mon.count("samplers")
    # through the classic interface
    n = 12
    x = np.sort(rng.uniform(-1, 1, n))
    y = np.round(10 * (1 + 2 * x + 0.3 * rng.normal(size=n)))
    w = rng.integers(1, 4, n)
    fx, X = form(rng, x)
    fy, Y = form(rng, y)
    fw, W = form(rng, w)
    L, H = [-100.0, -100.0], [100.0, 100.0]
    keep = {0: 10.0} if rng.random() < 0.5 else None
    lim = [0.1, 20.0]
    watch = Watch(mon, "NestedSampler", xdata=X, ydata=Y, weights=W, low=L, high=H, keep=keep, limits=lim)
    forms = (fx, fy, fw)
    res = []
    with mon.guarded("error:NestedSampler", forms=forms), contextlib.redirect_stdout(io.StringIO()):
        for (a, b, c) in ((X, Y, W), (np.array(x, dtype=float), np.array(y, dtype=float), np.array(w, dtype=float))):
            m = bf.PolynomialModel(1)
            m.setLimits(L, H)
            cls = bf.NestedSampler if idx % 3 else bf.PhantomSampler
            ns = cls(a, m, b, weights=c, limits=lim, ensemble=14, verbose=0, seed=seed)
            ns.end = 0.5
            kw = {"keep": keep} if keep else {}
            res.append(ns.sample(**kw))
            mc = ns.samples.monteCarloError(a)
            ns.samples.average(a)
            watch.check("sample")
        mon.close(res[0], res[1], "form:NestedSampler", rtol=1e-6, atol=1e-6, forms=forms)
        mon.count("samplers")
    mon.state("sampler", r.kind, forms)
    mon.sample("samplers: %s" % r.text)


def others(mon, rng, idx):
    """ minimiser, kernels, averages, tours """
    nd = int(rng.integers(2, 5))
    with mon.guarded("error:others"):
        start, size = rng.normal(size=nd), rng.uniform(0.2, 1, nd)
        lims = [np.full(nd, -10.0), np.full(nd, 10.0)]
        start[0] = -10.0 if rng.random() < 0.3 else start[0]
        watch = Watch(mon, "AnnealingAmoeba", start=start, size=size, limits=lims)

        def f(x):
            return float(np.sum((x - 1) ** 2))
        am = bf.AnnealingAmoeba(f, start, size=size, limits=lims)
        am.minimize()
        watch.check("minimize")
        xy = rng.uniform(size=(7, 2))
        w = rng.uniform(0.5, 2, 7)
        watch = Watch(mon, "Salesman", xdata=xy, weights=w)
        pr = bf.SalesmanProblem(xdata=xy, weights=w)
        with contextlib.redirect_stdout(io.StringIO()):
            ns = bf.NestedSolver(pr, ensemble=6, verbose=0, seed=4)
            ns.end = 0.3
            ns.solve() if hasattr(ns, "solve") else ns.sample()
        watch.check("NestedSolver")
        k = rng.normal(size=9)
        k.flags.writeable = False
        for name, (cls, _, _, _) in zoo.KERNELS.items():
            kk = cls()
            watch = Watch(mon, "kernel", x=k)
            kk.result(k)
            kk.resultsq(k * k) if hasattr(kk, "resultsq") else None
            kk.partial(k)
            watch.check(name)
    mon.state("others", nd, idx)


CASES = [Case("fitters", fitters, quick=280, thorough=4200, chunk=14), Case("robust", robust, quick=60, thorough=800, chunk=10),
         Case("models", models, quick=400, thorough=6000, chunk=20), Case("settings", settings, quick=40, thorough=400, chunk=10),
         Case("likelihoods", likelihoods, quick=90, thorough=1500, chunk=10),
         Case("samplers", samplers, quick=24, thorough=200, chunk=2), Case("others", others, quick=12, thorough=60, chunk=3)]
