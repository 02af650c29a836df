"""C13  Chi-squared, scale, covariance and standard deviations are consistent."""
import warnings
import numpy as np
import BayesicFitting as bf
import fits
from harness import Case

RULE = "distinct = (fitter, model, weights, accuracy, kept parameters, normalisation, position in the history of the fitter)"
ASSUMPTIONS = ["partials of the model are taken from the model (C02 decides these)",
               "the number of observations is the sum of the weights",
               "standard deviations of parameters that were kept are zero",
               "errors on the model from 25 cycles are compared within a factor, those from many cycles within 15 percent"]
REQUIRE = {"fits": 300, "refits": 120, "kept": 80, "weighted": 100, "accuracy": 100, "normalized": 30, "errors": 150, "maximum likelihood": 40, "minimum scale": 40}


def scip(m):
    return lambda x, mdl, **kw: bf.ScipyFitter(x, mdl, method=m, **kw)


FITTERS = [("Fitter", bf.Fitter), ("QRFitter", bf.QRFitter), ("LM", bf.LevenbergMarquardtFitter), ("Curve", bf.CurveFitter),
           ("Amoeba", bf.AmoebaFitter), ("LBFGSB", scip("L-BFGS-B")), ("NelderMead", bf.NelderMeadFitter), ("NewtonCG", scip("Newton-CG"))]


def fitted(mon, rng, idx):
    fname, ctor = FITTERS[idx % len(FITTERS)]
    linear = idx % len(FITTERS) < 2 or rng.random() < 0.3
    if linear:
        name, make, x = fits.linear_model(rng)
        npar = make().npchain
        truth = rng.normal(0, 1.5, npar)
    else:
        name, make, x, truth = fits.nonlinear_model(rng)
        truth = np.array(truth, dtype=float)
        npar = len(truth)
    if npar < 2 or (linear and np.linalg.cond(fits.design(make(), x)[0]) > 300):
        return
    n = len(x)
    model = make()
    model.parameters = truth * 1.02
    always = None
    if rng.random() < 0.3 and npar > 2:
        always = {int(rng.integers(0, npar)): 0.9}
        always = {k: float(truth[k] * 0.98) for k in always}
    ckw = {} if always is None else {"keep": dict(always)}
    fixed = None
    if fname in ("Fitter", "LM", "Curve") and rng.random() < 0.25:
        fixed = float(rng.uniform(0.1, 1))
        ckw["fixedScale"] = fixed
    norms = []
    with warnings.catch_warnings(), mon.guarded("error:" + fname, model=name):
        warnings.simplefilter("ignore")
        fitter = ctor(x, model, **ckw)
        for step in range(int(rng.integers(1, 4))):
            y = np.asarray(make().result(x, truth)) + rng.normal(0, 0.2, n)
            w, acc = fits.values(rng, n, "weights"), fits.values(rng, n, "accuracy")
            keep = None
            if rng.random() < 0.3 and npar > 2:
                k = int(rng.integers(0, npar))
                keep = {k: float(truth[k] * 1.03)}
            if fname in ("Fitter", "QRFitter", "LM", "Curve") and rng.random() < 0.15:
                d = rng.normal(0, 1, npar)
                nw = float(np.exp(rng.uniform(-1, 1)))
                fitter.normalize(d, float(d @ truth), weight=nw)
                norms.append((d, nw))
            kk = keep if keep is not None else (always or {})
            free = [k for k in range(npar) if k not in kk]
            wgt = fits.combined(n, w, acc)
            sumw = n if w is None else float(np.sum(w))
            if sumw <= len(free) + 1:
                continue
            kw = {}
            if w is not None:
                kw["weights"] = w
            if acc is not None:
                kw["accuracy"] = acc.tolist() if isinstance(acc, np.ndarray) and rng.random() < 0.2 else acc
            if keep is not None:
                kw["keep"] = dict(keep)
            if fname == "Amoeba":
                kw.update(maxiter=4000, size=0.2)
                if len(free) > 5:
                    continue
            model.parameters = truth * 1.02 + 0.01
            how = "%s%s%s%s%s" % (fname, "/w" if w is not None else "", "/acc" if acc is not None else "", "/keep" if kk else "",
                                  "/norm" if norms else "")
            try:
                pars = np.asarray(fitter.fit(y, **kw), dtype=float)
            except bf.ConvergenceError:
                mon.count("not converged")
                continue
            ref = make()
            r = y - np.asarray(ref.result(x, pars))
            D = np.asarray(make().partial(x, pars), dtype=float)
            H = D.T @ (D * wgt[:, None])
            for d, nw in norms:
                H = H + nw * np.outer(d, d)
            H = H[np.ix_(free, free)]
            c = np.linalg.cond(H)
            if c > 1e7:
                continue
            chisq = float(np.sum(wgt * r * r))
            scale = np.sqrt(chisq / (sumw - len(free)))
            cov = np.linalg.inv(H) * scale ** 2
            std = np.zeros(npar)
            std[free] = np.sqrt(np.diag(cov))
            # asked for in any order
            tol = 1e-9 + 1e-12 * c
            wants = {"chisq": chisq, "scale": scale, "hessian": H, "covariance": cov, "stdevs": std, "sumwgt": sumw,
                     "stdevScale": scale / np.sqrt(2 * sumw), "standardDeviations": std, "npfit": len(free), "design": None}
            order = list(wants)
            rng.shuffle(order)
            for a in order:
                got = getattr(fitter, a)
                if a == "design":
                    continue
                v = np.asarray(wants[a], dtype=float)
                mon.close(got, v, "%s:%s" % (a, how), rtol=tol, atol=tol * np.max(np.abs(v)), model=name, step=step, keep=kk)
            mon.close(fitter.getStandardDeviations(), std, "stdevs-method:" + how, rtol=tol, atol=1e-14)
            mon.close(model.stdevs, std, "stdevs-in-model:" + how, rtol=tol, atol=1e-14)
            mon.close(fitter.getScale(), scale, "scale-method:" + how, rtol=tol)
            mon.close(fitter.makeVariance(), scale ** 2, "variance:" + how, rtol=tol)
            # a minimum for the scale
            if rng.random() < 0.2:
                ms = float(np.exp(rng.uniform(-1.5, 1.5))) * scale
                fitter.setMinimumScale(ms)
                var = fitter.makeVariance()
                mon.expect(max(scale, ms) ** 2 * (1 - 1e-9) <= var <= (scale ** 2 + ms ** 2) * (1 + 1e-9), "minimum-scale:" + how,
                           "variance %g with scale %g and minimum %g" % (var, scale, ms), model=name)
                mon.close(fitter.covariance, cov / scale ** 2 * var, "minimum-scale-covariance:" + how, rtol=tol * 10, atol=tol * np.max(np.abs(
                    cov)) / scale ** 2 * var, model=name)
                del fitter.minimumScale
                mon.count("minimum scale")
            # errors on the result: propagated covariance, up to statistics
            if rng.random() < 0.5:
                xx = x if rng.random() < 0.6 else x[::2].copy()
                Df = np.asarray(make().partial(xx, pars), dtype=float)[:, free]
                want = np.sqrt(np.einsum("ij,jk,ik->i", Df, cov, Df))
                if linear or np.all(std[free] < 0.02 * (0.1 + np.abs(pars[free]))):
                    p0 = np.array(model.parameters)
                    err = np.asarray(fitter.monteCarloError(xx))
                    mon.expect(err.shape == want.shape and np.all(np.isfinite(err)), "error-shape:" + how, model=name)
                    ok = want > (1e-6 if linear else 0.2) * want.max()
                    q = float(np.sqrt(np.mean((err[ok] / want[ok]) ** 2)))
                    mon.expect(0.35 < q < 1.9, "error-25-cycles:" + how, model=name, ratio=q, keep=kk, step=step)
                    mc = bf.MonteCarlo(xx, model, fitter.covariance, index=None if not kk else np.array(free),
                                       mcycles=800, seed=int(rng.integers(1, 10000)))
                    err = np.asarray(fitter.monteCarloError(xx, monteCarlo=mc))
                    mon.close(err[ok], want[ok], "error-many-cycles:" + how, rtol=0.16, model=name)
                    mon.expect(np.all(err[~ok] <= (1e-3 if linear else 0.4) * want.max()), "error-small:" + how, model=name)
                    mon.close(model.parameters, p0, "error-keeps-parameters", rtol=0)
                    mon.count("errors")
            mon.count("fits")
            mon.count("refits", int(step > 0))
            mon.count("kept", int(bool(kk)))
            mon.count("weighted", int(w is not None))
            mon.count("accuracy", int(acc is not None))
            mon.count("normalized", int(bool(norms)))
            mon.state(how, name, step)
        mon.sample("%s of %s" % (fname, name), keep=str(always))


def covered(mon, rng, idx):
    """ over many data sets the standard deviations are the spread of the parameters; same for the errors on the result """
    npar = int(rng.integers(1, 4))
    n = 30
    x = np.linspace(-1, 1, n)
    truth = rng.normal(0, 1, npar)
    sig = float(rng.uniform(0.1, 1))
    acc = rng.uniform(0.5, 2, n) if idx % 2 else np.ones(n)
    m = bf.PolynomialModel(npar - 1)
    f0 = np.asarray(m.result(x, truth))
    z, s = [], []
    f = [bf.Fitter, bf.QRFitter, bf.LevenbergMarquardtFitter][idx % 3](x, m)
    for t in range(150):
        y = f0 + sig * acc * rng.normal(0, 1, n)
        p = f.fit(y, accuracy=acc)
        z.append((np.asarray(p) - truth) / f.stdevs)
        s.append(f.scale / sig)
    z = np.array(z)
    v = float(np.mean(z ** 2))
    mon.expect(0.65 < v < 1.5, "calibrated-stdevs", variance=v, npar=npar, accuracy=bool(idx % 2))
    mon.expect(0.93 < np.mean(s) < 1.05, "calibrated-scale", mean=float(np.mean(s)))
    mon.count("calibrations")
    mon.state("calibrated", npar, idx % 6)


def case_maxlike(mon, rng, idx):
    """ fits that maximise a likelihood : the likelihood and the scale of the residuals """
    from scipy import optimize, stats
    kind = ["gauss", "laplace", "cauchy", "exponential", "uniform", "poisson"][idx % 6]
    amoeba = bool(rng.random() < 0.5)
    n = int(rng.integers(15, 50))
    x = np.sort(rng.uniform(-2, 2, n))
    deg = int(rng.integers(1, 3))
    p = rng.normal(0, 1, deg + 1)
    if kind == "poisson":
        p[0] = 40.0
        y = rng.poisson(bf.PolynomialModel(deg).result(x, p)).astype(float)
    else:
        y = bf.PolynomialModel(deg).result(x, p) + rng.normal(0, 0.3, n)
    w = [None, np.ones(n), rng.integers(1, 4, n).astype(float), rng.uniform(0.3, 3, n)][int(rng.integers(4))]
    if kind in ("cauchy", "poisson"):           # they ignore weights
        w = None
    scale = [None, float(np.exp(rng.uniform(-0.5, 0.7)))][int(rng.integers(2))]
    power = float(rng.uniform(1.2, 3.0)) if kind == "exponential" else 2.0
    if kind == "uniform":
        scale = 4.0
    kw = {"errdis": kind}
    if scale is not None and kind != "poisson":
        kw["scale"] = scale
    if kind == "exponential":
        kw["power"] = power
    m = bf.PolynomialModel(deg)
    wit = dict(kind=kind, fitter="Amoeba" if amoeba else "Nelder-Mead", weights=w, n=n, scale=scale, power=power)
    mon.state("maxlike", kind, amoeba, w is None, scale is None)
    with warnings.catch_warnings(), mon.guarded("error:maxlike:" + kind, **wit):
        warnings.simplefilter("ignore")
        try:
            f = bf.AmoebaFitter(x, m, **kw) if amoeba else bf.ScipyFitter(x, m, method="NELDER-MEAD", **kw)
            q = np.array(f.fit(y, par0=p.copy(), weights=w), dtype=float)
        except bf.ConvergenceError:
            mon.count("not converged")
            return
        mock = bf.PolynomialModel(deg).result(x, q)
        r = y - mock
        ww = np.ones(n) if w is None else w
        dist = {"gauss": stats.norm, "laplace": stats.laplace, "cauchy": stats.cauchy, "exponential": stats.gennorm(power).dist, "uniform": stats.uniform,
                "poisson": None}[kind]

        def logl(s):
            if kind == "poisson":
                return float(np.sum(ww * stats.poisson.logpmf(y, mock)))
            if kind == "uniform":
                return float(np.sum(ww * np.where(np.abs(r) <= s, -np.log(2 * s), -np.inf)))
            if kind == "exponential":
                return float(np.sum(ww * stats.gennorm.logpdf(r, power, scale=s)))
            return float(np.sum(ww * dist.logpdf(r, scale=s)))
        mon.count("maximum likelihood")
        mon.close(float(f.getLogLikelihood()), logl(1.0 if scale is None else scale), "likelihood:maxlike:" + kind, rtol=1e-8, atol=1e-8, **wit)
        if kind in ("poisson", "uniform"):
            return
        o = optimize.minimize_scalar(lambda t: -logl(np.exp(t)), bounds=(-6, 4), method="bounded", options={"xatol": 1e-9})
        s = float(np.exp(o.x))
        if kind == "cauchy":
            # the scale for which the average of log( 1 + ( r / s )^2 ) has its expected value log( 4 ) ; approximated by sqrt( 2 )
            g = lambda t, c: np.mean(np.log1p((r / t) ** 2)) - c
            lo, hi = (optimize.brentq(g, 1e-3, 1e2, args=(c,)) for c in (1.43, 1.37))
            mon.expect(lo <= float(f.getScale()) <= hi, "scale:maxlike:cauchy", scale=f.getScale(), low=lo, high=hi)
            return
        sig = {"gauss": s, "laplace": s * np.sqrt(2), "cauchy": s, "exponential": s * stats.gennorm.std(power)}[kind]
        mon.close(float(f.getScale()), sig, "scale:maxlike:" + kind, rtol=1e-4, **wit)
        mon.close(float(f.getLogLikelihood()), logl(1.0 if scale is None else scale), "likelihood-after-scale:maxlike:" + kind, rtol=1e-8, atol=1e-8, **wit)


CASES = [Case("maxlike", case_maxlike, quick=60, thorough=1000, limit=60, chunk=10),
         Case("fitted", fitted, quick=400, thorough=8000, chunk=16),
         Case("covered", covered, quick=12, thorough=90, chunk=3)]
