"""C39  Input that cannot be handled is refused with the documented error, and the object remains as it was."""
import contextlib
import io
import warnings
import numpy as np
from astropy import units
import BayesicFitting as bf
from BayesicFitting.source.AnnealingAmoeba import AnnealingAmoeba
from BayesicFitting.source.ConvergenceError import ConvergenceError
import fits
from harness import Case

RULE = "distinct = (what is offered, to which object, kind of wrong value)"
ASSUMPTIONS = ["only refusals that the documentation (Raises) announces are judged; the text of an error is not"]
REQUIRE = {"refusals": 1200, "still usable": 500, "fit refusals": 150, "model refusals": 200, "prior refusals": 120, "sampler refusals": 60}

VE, AE, IE, TE, RE = ValueError, AttributeError, IndexError, TypeError, RuntimeError


def refused(mon, what, errors, fn, group, **wit):
    """ fn must raise one of errors """
    mon.count("refusals")
    mon.count(group)
    mon.state(what, str(sorted(wit.items()))[:60])
    got = "nothing"
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            v = fn()
        got = "accepted, %s" % (str(v)[:80],)
        ok = False
    except errors:
        ok = True
    except Exception as e:
        if type(e).__name__ == "Timeout":
            raise
        got = "%s: %s" % (type(e).__name__, str(e)[:100])
        ok = False
    return mon.expect(ok, "refuse/" + what, "wanted %s, got %s" % ("/".join(e.__name__ for e in np.atleast_1d(errors).tolist()), got), **wit)


FIT = {"Fitter": bf.Fitter, "QRFitter": bf.QRFitter, "LM": bf.LevenbergMarquardtFitter, "Curve": bf.CurveFitter,
       "Amoeba": bf.AmoebaFitter, "BFGS": lambda x, m: bf.ScipyFitter(x, m, method="BFGS"),
       "NelderMead": lambda x, m: bf.ScipyFitter(x, m, method="NELDER-MEAD")}


def case_fit(mon, rng, idx):
    fname = sorted(FIT)[idx % len(FIT)]
    ctor = FIT[fname]
    n = int(rng.integers(10, 30))
    x = np.sort(rng.uniform(-2, 2, n))
    p0 = rng.normal(0, 1, 3)
    new = lambda: bf.PolynomialModel(1) if fname == "Amoeba" else bf.PolynomialModel(2)
    y = bf.PolynomialModel(2).result(x, p0) + rng.normal(0, 0.1, n)
    bad = [np.nan, np.inf, -np.inf][int(rng.integers(3))]

    def poison(a, v):
        b = np.array(a, dtype=float)
        b[int(rng.integers(n))] = v
        return b.tolist() if rng.random() < 0.2 else b
    good = dict(weights=[None, rng.uniform(0.5, 2, n)][int(rng.integers(2))], accuracy=[None, 0.3, rng.uniform(0.5, 2, n)][int(rng.integers(3))])
    f = ctor(x, new())
    hist = bool(rng.random() < 0.5)
    with warnings.catch_warnings(), mon.guarded("error:" + fname):
        warnings.simplefilter("ignore")
        if not hist:
            for a in ("chisq", "logOccam", "logLikelihood"):
                refused(mon, "%s before the fit" % a, (AE,), lambda: getattr(f, a), "fit refusals", fitter=fname)
        else:
            f.fit(y + 1.0, **good)
        def numbers():
            """ what the fitter tells about the last fit """
            return {"chisq": float(f.chisq), "scale": float(f.scale), "sumwgt": float(f.sumwgt), "covariance": np.array(f.covariance),
                    "evidence": float(f.getEvidence(limits=[-100.0, 100.0])), "with noise": float(f.getEvidence(limits=[-100.0, 100.0], noiseLimits=[0.01, 10.0])),
                    "logOccam": float(f.logOccam), "logLikelihood": float(f.logLikelihood)}
        state = np.array(f.model.parameters), (numbers() if hist else None)
        for k in rng.permutation(6)[:3]:
            if k == 0:
                refused(mon, "nan in ydata", (VE,), lambda: f.fit(poison(y, bad), **good), "fit refusals", fitter=fname, value=str(bad))
            elif k == 1:
                refused(mon, "nan in weights", (VE,), lambda: f.fit(y, weights=poison(np.ones(n), bad), accuracy=good["accuracy"]), "fit refusals",
                        fitter=fname, value=str(bad))
            elif k == 2:
                refused(mon, "nan in accuracy", (VE,), lambda: f.fit(y, accuracy=poison(np.ones(n), bad), weights=good["weights"]), "fit refusals",
                        fitter=fname, value=str(bad))
            elif k == 3:
                v = [0.0, -1.0][int(rng.integers(2))]
                refused(mon, "accuracy not positive", (VE,), lambda: f.fit(y, accuracy=poison(np.ones(n), v), weights=good["weights"]), "fit refusals",
                        fitter=fname, value=str(v))
            elif k == 4:
                v = [0.0, -1.0, np.nan][int(rng.integers(3))]
                refused(mon, "one accuracy not positive", (VE,), lambda: f.fit(y, accuracy=v, weights=good["weights"]), "fit refusals", fitter=fname, value=str(v))
            else:
                refused(mon, "evidence without limits", (VE,) if hist else (VE, AE), lambda: f.getEvidence(), "fit refusals", fitter=fname)
        # the fitter still is what it was
        mon.count("still usable")
        mon.expect(np.array_equal(state[0], f.model.parameters), "changed by a refused fit/parameters", fitter=fname)
        if hist:
            now = numbers()
            for a in now:
                mon.close(now[a], state[1][a], "changed by a refused fit/" + a, rtol=1e-12, atol=0, fitter=fname)
        q = np.array(f.fit(y, **good), dtype=float)
        g = ctor(x, new())
        g.model.parameters = state[0]
        q2 = np.array(g.fit(y, **good), dtype=float)
        mon.close(q, q2, "fit after a refused fit", rtol=1e-12, atol=1e-12, fitter=fname)
        mon.close(f.stdevs, g.stdevs, "stdevs after a refused fit", rtol=1e-9, fitter=fname)


def case_ctor(mon, rng, idx):
    fname = sorted(FIT)[idx % len(FIT)]
    ctor = FIT[fname]
    n = int(rng.integers(6, 20))
    x = np.sort(rng.uniform(-2, 2, n))
    m = bf.PolynomialModel(2)
    xb = x.copy()
    xb[int(rng.integers(n))] = np.nan
    refused(mon, "nan in xdata", (VE,), lambda: ctor(xb, m), "fit refusals", fitter=fname)
    k = int(rng.integers(3))
    if k == 0:
        refused(mon, "dimensions of xdata", (VE,), lambda: ctor(rng.uniform(0, 1, (n, 2)), m), "fit refusals", fitter=fname)
    elif k == 1:
        refused(mon, "dimensions of xdata", (VE,), lambda: ctor(x, bf.PolySurfaceModel(1)), "fit refusals", fitter=fname)
    else:
        refused(mon, "dimensions of xdata", (VE,), lambda: ctor(rng.uniform(0, 1, (n, 3)), bf.PolySurfaceModel(1)), "fit refusals", fitter=fname)
    c = bf.GaussModel() + bf.PolynomialModel(1) + bf.ExpModel()
    part = c._next if rng.random() < 0.5 else c._next._next
    refused(mon, "model is not the head", (VE,), lambda: ctor(x, part), "fit refusals", fitter=fname)
    if fname == "Amoeba":
        refused(mon, "simplex of one parameter", (VE,), lambda: ctor(x, bf.PowerModel(1)).fit(x), "fit refusals", fitter=fname)
    if fname in ("Amoeba", "BFGS"):
        mk = bf.AmoebaFitter if fname == "Amoeba" else (lambda *a, **k: bf.ScipyFitter(*a, method="BFGS", **k))
        refused(mon, "unknown error distribution", (VE,), lambda: mk(x, m, errdis="nonsense").fit(x), "fit refusals", fitter=fname)
    refused(mon, "unknown method", (VE,), lambda: bf.ScipyFitter(x, m, method="NONSENSE").fit(x), "fit refusals")
    # more parameters than data
    if fname in ("Fitter", "QRFitter"):
        f = ctor(x[:3], bf.PolynomialModel(1))
        f.fit(x[:3] ** 2 + np.array([0, 0.3, 0]), weights=[np.array([0.5, 1.0, 0.5]), np.array([0.25, 0.5, 1.0])][int(rng.integers(2))])
        refused(mon, "scale without degrees of freedom", (RE,), lambda: f.getScale(), "fit refusals", fitter=fname)
        refused(mon, "scale without degrees of freedom", (RE,), lambda: f.scale, "fit refusals", fitter=fname)
        refused(mon, "evidence without degrees of freedom", (RE,), lambda: f.getEvidence(limits=[-10, 10], noiseLimits=[0.1, 10]), "fit refusals", fitter=fname)
    # robust
    inner = bf.Fitter(x, m)
    refused(mon, "kernel of RobustShell", (VE,), lambda: bf.RobustShell(inner, kernel=[3, "huber"][int(rng.integers(2))]), "fit refusals")
    refused(mon, "onesided of RobustShell", (VE,), lambda: bf.RobustShell(inner, onesided=["xyz", "both", 3][int(rng.integers(3))]), "fit refusals")


def mstate(m):
    return (str(m), m.npars, [m.getParameterName(k) for k in range(m.npars)], np.array(m.parameters).tolist(), m.ndim)


NOFIX = [("BSplines", lambda fx: bf.BSplinesModel(knots=[0, 1, 2, 3], fixed=fx)), ("PolySineAmp", lambda fx: bf.PolySineAmpModel(1, 0.3, fixed=fx)),
         ("SineSpline", lambda fx: bf.SineSplineModel(0.3, [0, 1, 2], fixed=fx)), ("SineSplineDrift", lambda fx: bf.SineSplineDriftModel([0, 1, 2], fixed=fx)),
         ("SurfaceSplines", lambda fx: bf.SurfaceSplinesModel([[0, 1, 2.], [0, 1, 2.]], fixed=fx)),
         ("Product", lambda fx: bf.ProductModel([bf.ExpModel(), bf.ExpModel()], fixed=fx)),
         ("Bracket", lambda fx: bf.BracketModel(bf.ExpModel(), fixed=fx)), ("PolynomialDynamic", lambda fx: bf.PolynomialDynamicModel(2, fixed=fx)),
         ("HarmonicDynamic", lambda fx: bf.HarmonicDynamicModel(2, fixed=fx)), ("Repeating", lambda fx: bf.RepeatingModel(2, bf.ExpModel(), fixed=fx))]

ONES = [bf.GaussModel, bf.ExpModel, bf.SineModel, lambda: bf.PolynomialModel(2), lambda: bf.GaussModel() + bf.PolynomialModel(1), bf.ArctanModel,
        lambda: bf.PolynomialDynamicModel(2), lambda: bf.SplinesModel(knots=[-1, 0, 1]), lambda: bf.BracketModel(bf.ExpModel() * bf.GaussModel())]
TWOS = [lambda: bf.PolySurfaceModel(1), bf.EtalonDriftModel, lambda: bf.Kernel2dModel(kernel=bf.Gauss() if hasattr(bf, "Gauss") else None),
        lambda: bf.PolySurfaceModel(1) + bf.PolySurfaceModel(0)]
OPS = [("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a / b),
       ("+=", lambda a, b: a.__iadd__(b)), ("*=", lambda a, b: a.__imul__(b)), ("addModel", lambda a, b: a.addModel(b)),
       ("subtractModel", lambda a, b: a.subtractModel(b)), ("multiplyModel", lambda a, b: a.multiplyModel(b)), ("divideModel", lambda a, b: a.divideModel(b)),
       ("appendModel", lambda a, b: a.appendModel(b, 1))]
PIPES = [("|", lambda a, b: a | b), ("|=", lambda a, b: a.__ior__(b)), ("pipeModel", lambda a, b: a.pipeModel(b))]


def case_model(mon, rng, idx):
    G = "model refusals"
    a, b = ONES[idx % len(ONES)](), TWOS[int(rng.integers(len(TWOS)))]()
    if rng.random() < 0.5:
        a, b = b, a
    sa, sb = mstate(a), mstate(b)
    nm, op = OPS[int(rng.integers(len(OPS)))]
    refused(mon, "models of different dimension", (VE,), lambda: op(a, b), G, op=nm, left=a.ndim)
    same = lambda: mon.expect(mstate(a) == sa and mstate(b) == sb, "changed by a refused combination", op=nm, before=sa, after=mstate(a))
    mon.count("still usable")
    same()
    nm, op = PIPES[int(rng.integers(len(PIPES)))]
    if a.ndim == 1:
        refused(mon, "pipe into another dimension", (VE,), lambda: op(a, b), G, op=nm)
    else:
        s3 = bf.SoftMaxModel(ndim=3, ndout=2)
        refused(mon, "pipe into another dimension", (VE,), lambda: op(s3, bf.GaussModel()), G, op=nm)
        refused(mon, "pipe into another dimension", (VE,), lambda: op(a, b if b.ndim > 1 else bf.PolySurfaceModel(1)), G, op=nm)
    same()
    d1, d2 = bf.PolynomialDynamicModel(1), (bf.HarmonicDynamicModel(2) if rng.random() < 0.5 else bf.RepeatingModel(1, bf.GaussModel()))
    if rng.random() < 0.5:
        d1 = bf.ExpModel() + d1
    s1, s2 = mstate(d1), mstate(d2)
    nm, op = OPS[int(rng.integers(len(OPS)))]
    refused(mon, "two dynamic models", (VE,), lambda: op(d1, d2), G, op=nm)
    mon.expect(mstate(d1) == s1 and mstate(d2) == s2, "changed by a refused combination", op=nm, before=s1, after=mstate(d1))
    # parameters
    m = ONES[int(rng.integers(len(ONES)))]()
    n = m.npars
    s = mstate(m)
    att = ["parameters", "stdevs"][int(rng.integers(2))]
    wrong = [np.ones(n + 1), np.ones(n + 3).tolist(), np.ones(max(n - 1, 0)) if n > 1 else np.ones(n + 2)][int(rng.integers(3))]
    refused(mon, "number of " + att, (VE,), lambda: setattr(m, att, wrong), G, n=len(wrong), npars=n)
    k = n + int(rng.integers(0, 3))
    refused(mon, "name of a parameter that is not there", (IE,), lambda: m.getParameterName(k), G)
    refused(mon, "unit of a parameter that is not there", (IE,), lambda: m.getParameterUnit(k), G)
    refused(mon, "parameter that is not there", (IE,), lambda: m[k], G)
    refused(mon, "unknown attribute", (AE,), lambda: setattr(m, "nonsense", 3), G)
    refused(mon, "unknown attribute", (AE,), lambda: m.nonsense, G)
    refused(mon, "type of an attribute", (TE,), lambda: setattr(m, "yUnit", ["m", 3.0, "kg"][int(rng.integers(3))]), G)
    refused(mon, "fixed after construction", (AE,), lambda: setattr(bf.GaussModel(fixed={1: 0.0}), "fixed", {0: 1.0}), G)
    refused(mon, "fixed is not a dictionary", (AE,), lambda: bf.GaussModel(fixed=[1, 2]), G)
    refused(mon, "model that is not there", (IE,), lambda: m.isolateModel(m.chainLength() + int(rng.integers(0, 2))), G)
    mon.count("still usable")
    mon.expect(mstate(m) == s, "changed by a refused setting", before=s, after=mstate(m))
    nm, mk = NOFIX[idx % len(NOFIX)]
    refused(mon, "fixed parameters of " + nm, (AE,), lambda: mk({0: 1.0}), G)
    which = int(rng.integers(12))
    tests = [
        ("splines without knots", (VE,), lambda: bf.SplinesModel(nrknots=4)),
        ("splines without knots", (VE,), lambda: bf.BasicSplinesModel()),
        ("splines without knots", (VE,), lambda: bf.BSplinesModel(nrknots=4, min=0)),
        ("domain of BSplines", (VE,), lambda: bf.BSplinesModel(knots=[0, 1, 2, 3.]).result(np.array([0.5, [3.5, -0.1][int(rng.integers(2))]]), np.ones(6))),
        ("domain of FreeShape", (VE,), lambda: bf.FreeShapeModel(4, xlo=0, xhi=2).result(np.array([0.5, [8.5, -5.1][int(rng.integers(2))]]), np.ones(4))),
        ("football complexity", (VE,), lambda: bf.FootballModel(4, complexity=[0, 6][int(rng.integers(2))])),
        ("2-dim factor of a product", (VE,), lambda: bf.ProductModel([bf.ExpModel(), bf.PolySurfaceModel(1)])),
        ("combi relation", (VE,), lambda: bf.CombiModel(bf.GaussModel(), 2, addCombi=[[1, 2], 3][int(rng.integers(2))])),
        ("combi length", (VE,), lambda: bf.CombiModel(bf.GaussModel(), 3, mulCombi={2: [1, 2]})),
        ("combi operation", (VE,), lambda: bf.CombiModel(bf.GaussModel(), 2, oper="nonsense")),
        ("user function", (VE,), lambda: bf.UserModel(2, [3, "f"][int(rng.integers(2))])),
        ("convolutions of Tophat", (VE,), lambda: bf.KernelModel(kernel=bf.Tophat(nconv=int(rng.integers(7, 9))))),
    ]
    t = tests[which]
    refused(mon, t[0], t[1], t[2], G)
    lo, hi = 1, 4
    o = [0, 5, 9][int(rng.integers(3))]
    refused(mon, "order outside the range", (VE,), [lambda: bf.PolynomialDynamicModel(o, minDegree=lo, maxDegree=hi), lambda: bf.HarmonicDynamicModel(o, minOrder=lo, maxOrder=hi),
            lambda: bf.RepeatingModel(o, bf.GaussModel(), minComp=lo, maxComp=hi)][int(rng.integers(3))], G, order=o)
    refused(mon, "prior beyond the parameters", (IE,), lambda: bf.GaussModel().setPrior(int(rng.integers(1, 3)), bf.UniformPrior(limits=[0, 1])), G)


def pstate(p):
    v = np.array([0.02, 0.3, 0.7, 0.98])
    return (str(p), p.lowLimit, p.highLimit, [float(p.unit2Domain(u)) for u in v] if p.isBound() or type(p).__name__ not in ("UniformPrior", "JeffreysPrior") else None)


def case_prior(mon, rng, idx):
    G = "prior refusals"
    names = ["UniformPrior", "JeffreysPrior", "GaussPrior", "LaplacePrior", "CauchyPrior", "ExponentialPrior"]
    nm = names[idx % len(names)]
    cls = getattr(bf, nm)
    lo = float(rng.uniform(0.1, 1))
    hi = lo + float(rng.uniform(0.5, 3))
    lim = [lo, hi] if nm != "ExponentialPrior" else [None, None]
    mk = lambda: cls(limits=[lo, hi]) if nm != "ExponentialPrior" else cls(scale=1.5, hilimit=hi)
    p = mk()
    s = pstate(p)
    bad = [[hi, lo], [lo, lo], [hi, hi - 1e-3]]
    if nm == "JeffreysPrior":
        bad += [[-1.0, hi], [-2.0, -1.0]]
    b = bad[int(rng.integers(len(bad)))]
    refused(mon, "limits out of order", (VE,), lambda: p.setLimits(b), G, prior=nm, limits=b)
    mon.count("still usable")
    mon.expect(pstate(p) == s, "changed by refused limits/" + nm, before=s, after=pstate(p), limits=b)
    if nm != "ExponentialPrior":
        refused(mon, "limits out of order", (VE,), lambda: cls(limits=b), G, prior=nm, limits=b)
    out = [lo - 0.05 if nm != "ExponentialPrior" else -0.1, hi + 0.05][int(rng.integers(2))]
    refused(mon, "value outside the limits", (VE,), lambda: p.checkLimit(out), G, prior=nm)
    if nm in ("UniformPrior", "JeffreysPrior"):
        refused(mon, "unlimited " + nm, (AE,), lambda: cls().result(1.3), G)
    if nm == "JeffreysPrior":
        refused(mon, "not positive for JeffreysPrior", (VE,), lambda: p.domain2Unit([0.0, -1.0][int(rng.integers(2))]), G)
    if nm in ("GaussPrior", "LaplacePrior", "CauchyPrior", "ExponentialPrior"):
        v = [0, -1.0, 0.0][int(rng.integers(3))]
        refused(mon, "scale of a prior", (VE,), lambda: cls(scale=v), G, prior=nm, scale=v)
        q = cls(scale=2.0)
        s = pstate(q)
        refused(mon, "scale of a prior", (VE,), lambda: setattr(q, "scale", v), G, prior=nm, scale=v)
        mon.expect(pstate(q) == s, "changed by a refused scale/" + nm, before=s, after=pstate(q))
    refused(mon, "attribute of a prior", (AE,), lambda: setattr(p, "nonsense", 1), G)
    # in a model
    m = bf.GaussModel()
    m.setLimits([0.1, -1, 0.1], [5, 1, 2])
    s = [str(m.getPrior(k)) for k in range(3)]
    k = int(rng.integers(3))
    l, h = [0.1, -1, 0.1], [5, 1, 2]
    l[k], h[k] = h[k], l[k]
    refused(mon, "limits of a model out of order", (VE,), lambda: m.setLimits(l, h), G, parameter=k)
    mon.count("still usable")
    mon.expect([str(m.getPrior(k)) for k in range(3)] == s, "changed by refused limits/model", parameter=k, before=s, after=[str(m.getPrior(k)) for k in range(3)])
    refused(mon, "value outside the limits of a model", (VE,), lambda: m.checkLimits(np.array([2.0, 0.0, 9.0]), np.arange(3)) if hasattr(m, "checkLimits")
            else m.getPrior(2).checkLimit(9.0), G)


def case_sampler(mon, rng, idx):
    G = "sampler refusals"
    n = 12
    x = np.linspace(-1, 1, n)
    y = 1 + x + rng.normal(0, 0.2, n)

    def model():
        m = bf.PolynomialModel(1)
        m.setLimits([-5], [5])
        return m
    kw = dict(seed=int(rng.integers(1, 10000)), verbose=0, ensemble=12)
    ns = bf.NestedSampler(x, model(), y, **kw)
    nd = str(ns.distribution)
    ne = [str(e) for e in ns.engines]
    tests = [("error distribution", (VE,), lambda: ns.setErrorDistribution(["nonsense", 3, "gaussian"][int(rng.integers(3))])),
             ("engine", (VE,), lambda: ns.setEngines([["nonsense"], [3], ["chord", "nonsense"]][int(rng.integers(3))])),
             ("problem", (VE, KeyError), lambda: ns.setProblem(["nonsense", 3][int(rng.integers(2))], model(), x, y)),
             ("sampler's error distribution", (VE,), lambda: bf.NestedSampler(x, model(), y, distribution="nonsense", **kw)),
             ("sampler's engine", (VE,), lambda: bf.NestedSampler(x, model(), y, engines=["nonsense"], **kw)),
             ("step of PhantomSampler", (VE,), lambda: bf.PhantomSampler(x, model(), y, step=11, **kw)),
             ("limits of a scale", (VE, AE), lambda: bf.NestedSampler(x, model(), y, limits=[2.0, 1.0], **kw)),
             ("accuracy with variable scale", (AE,), lambda: bf.NestedSampler(x, model(), y, accuracy=np.full(n, 0.2), distribution="laplace", limits=[0.1, 2], **kw).sample()),
             ("static model in an evidence problem", (VE,), lambda: bf.EvidenceProblem(model=model(), xdata=x, ydata=y)),
             ("covar and accuracy", (AE,), lambda: bf.ErrorsInXandYProblem(model=model(), xdata=x, ydata=y, accuracy=0.1, covar=np.eye(2), prior=bf.GaussPrior(scale=1.0))),
             ("solver's cost function", (VE,), lambda: bf.NestedSolver(bf.SalesmanProblem(rng.uniform(0, 1, (8, 2))), distribution=["nonsense", 3][int(rng.integers(2))])),
             ]
    for k in rng.permutation(len(tests))[:4]:
        t = tests[k]
        refused(mon, t[0], t[1], t[2], G)
    am = dict(func=lambda p: float(np.sum(p * p)), xini=np.array([1.0, 2.0]))
    refused(mon, "function of the amoeba", (VE,), lambda: AnnealingAmoeba(3, np.array([1.0, 2.0])), G)
    refused(mon, "tolerances of the amoeba", (VE,), lambda: AnnealingAmoeba(am["func"], am["xini"], reltol=None, abstol=None), G)
    refused(mon, "callback of the amoeba", (VE,), lambda: AnnealingAmoeba(am["func"], am["xini"], callback=3), G)
    refused(mon, "too many iterations", (ConvergenceError,), lambda: AnnealingAmoeba(am["func"], am["xini"], maxiter=3).minimize(), G)
    xx = np.linspace(-3, 3, 30)
    refused(mon, "too many iterations of LM", (ConvergenceError,),
            lambda: bf.LevenbergMarquardtFitter(xx, bf.GaussModel()).fit(2 * np.exp(-(xx - 0.5) ** 2), par0=[1, -1, 1.0], maxiter=2), G)
    # and it still runs, as one that was never offered anything wrong
    if idx % 3 == 0:
        with mon.guarded("error:sampler"), contextlib.redirect_stdout(io.StringIO()):
            a = bf.NestedSampler(x, model(), y, **kw)
            b = bf.NestedSampler(x, model(), y, **kw)
            for bad in (lambda: a.setErrorDistribution("nonsense"), lambda: a.setProblem("nonsense", model(), x, y)):
                try:
                    bad()
                except (VE, KeyError):
                    pass
            mon.count("still usable")
            mon.expect(a.sample() == b.sample(), "changed by a refused setting/sampler")
    mon.expect(str(ns.distribution) == nd, "changed by a refused distribution/sampler")


CASES = [Case("fit", case_fit, quick=280, thorough=3000, limit=60, chunk=20),
         Case("ctor", case_ctor, quick=112, thorough=1200, limit=60, chunk=14),
         Case("model", case_model, quick=240, thorough=3000, limit=60, chunk=20),
         Case("prior", case_prior, quick=180, thorough=2400, limit=60, chunk=20),
         Case("sampler", case_sampler, quick=30, thorough=300, limit=90, chunk=5)]
