"""C12  Iterative fitters end in an optimum of what they optimise."""
import warnings
import numpy as np
import BayesicFitting as bf
import fits
from harness import Case

def scipyf(method):
    return lambda x, m, **kw: bf.ScipyFitter(x, m, method=method, **kw)


# name : ( constructor, allowed relative excess of chisq, supports limits from )
FITTERS = {
    "LM": (bf.LevenbergMarquardtFitter, 1e-3),
    "Curve": (bf.CurveFitter, 1e-4),
    "CurveTrf": (lambda x, m, **kw: bf.CurveFitter(x, m, method="trf", **kw), 1e-4),
    "Amoeba": (bf.AmoebaFitter, 3e-2),
    "NelderMead": (bf.NelderMeadFitter, 3e-2),
    "Powell": (bf.PowellFitter, 3e-2),
    "CG": (bf.ConjugateGradientFitter, 1e-2),
    "BFGS": (bf.BfgsFitter, 1e-2),
    "NewtonCG": (bf.NewtonCgFitter, 1e-2),
    "LBFGSB": (bf.LbfgsbFitter, 5e-2),
    "TNC": (bf.TncFitter, 1e-2),
    "COBYLA": (bf.CobylaFitter, 0.3),
    "SLSQP": (bf.SlsqpFitter, 1e-2),
    "Dogleg": (bf.DoglegFitter, 1e-2),
    "TrustNCG": (bf.TrustNcgFitter, 1e-2),
    "auto": (bf.ScipyFitter, 1e-2),
}
NAMES = list(FITTERS)


def leastsq(mon, rng, idx):
    fname = NAMES[idx % len(NAMES)]
    ctor, gap = FITTERS[fname]
    name, make, x, truth = fits.nonlinear_model(rng)
    truth = np.array(truth, dtype=float)
    npar, n = len(truth), len(x)
    model = make()
    always = None
    if rng.random() < 0.25 and npar > 2:
        always = {int(rng.integers(0, npar)): None}
        k = list(always)[0]
        always[k] = float(truth[k] * 1.05)
    ckw = {}
    if always is not None:
        ckw["keep"] = dict(always)
    truth0 = truth
    with warnings.catch_warnings(), mon.guarded("error:" + fname, model=name):
        warnings.simplefilter("ignore")
        model.parameters = truth * (1 + 0.05 * rng.uniform(-1, 1, npar))
        fitter = ctor(x, model, **ckw)
        for step in range(2):
            y = np.asarray(make().result(x, truth)) + rng.normal(0, 0.1, n)
            w, acc = fits.values(rng, n, "weights"), fits.values(rng, n, "accuracy")
            keep = None
            if rng.random() < 0.25 and npar > 2:
                k = int(rng.integers(0, npar))
                keep = {k: float(truth[k] * 0.96)}
            kk = keep if keep is not None else (always or {})
            free = [k for k in range(npar) if k not in kk]
            wgt = fits.combined(n, w, acc)
            start = truth * (1 + 0.06 * rng.uniform(-1, 1, npar))
            kw = {}
            if w is not None:
                kw["weights"] = w
            if acc is not None:
                kw["accuracy"] = acc
            if keep is not None:
                kw["keep"] = dict(keep)
            given = rng.random() < 0.4
            if given:
                p0 = start.copy() if rng.random() < 0.5 else start.tolist()
                kw["inipar" if fname.startswith("Curve") else "par0"] = p0
            else:
                model.parameters = start.copy()
            if fname == "Amoeba":
                kw["maxiter"] = 4000
                kw["size"] = 0.3
            if FITTERS[fname][0] not in (bf.LevenbergMarquardtFitter, bf.AmoebaFitter) and not fname.startswith("Curve"):
                kw["tolerance"] = 1e-6
            if fname == "COBYLA":
                kw["tolerance"] = 1e-5
            ref = make()

            def res(q):
                return np.sqrt(wgt) * (y - np.asarray(ref.result(x, q)))
            begin = start.copy()
            for k, v in kk.items():
                begin[k] = v
            how = "%s%s%s%s%s" % (fname, "/w" if w is not None else "", "/acc" if acc is not None else "",
                                  "/keep" if kk else "", "/par0" if given else "")
            try:
                got = np.asarray(fitter.fit(y, **kw), dtype=float)
            except bf.ConvergenceError:
                mon.expect(False, "converged:" + how, model=name)
                continue
            if given:
                mon.close(p0, start, "start-untouched:" + how, rtol=0, model=name)
            chi0, chi = float(np.sum(res(begin) ** 2)), float(np.sum(res(got) ** 2))
            best, cmin = fits.polish(res, got, free)
            mon.close(model.parameters, got, "model-parameters:" + how, rtol=0)
            for k, v in kk.items():
                mon.expect(got[k] == v, "kept:" + how, model=name, got=got, keep=kk)
            mon.close(fitter.chisq, chi, "reported-chisq:" + how, rtol=1e-7, model=name, step=step)
            if fname != "SLSQP":        # scipy's SLSQP may jump to another local minimum with its first step
                mon.expect(chi <= chi0 * (1 + 1e-9), "not-worse-than-start:" + how, model=name, start=chi0, end=chi)
            excess = (chi - cmin) / max(cmin, 1e-3)
            if gap > 1e-3:
                # scipy's stopping criteria are relative to what has been gained
                excess = min(excess, (chi - cmin) / max(abs(chi0 - cmin), 1e-10) * (10 if fname != "COBYLA" else 1))
            if excess > gap > 1e-3 and fname != "Amoeba":
                # scipy's methods stop early now and then (precision loss); then a next fit, starting here, goes on
                for t in range(3):
                    kw.pop("par0", None)
                    model.parameters = got.copy()
                    got = np.asarray(fitter.fit(y, **kw), dtype=float)
                chi = float(np.sum(res(got) ** 2))
                best, cmin = fits.polish(res, got, free)
                excess = (chi - cmin) / max(cmin, 1e-3)
                mon.count("refined")
            mon.expect(excess <= gap, "optimum:" + how, model=name, excess=excess, chi=chi, best=cmin, got=got, polished=best, step=step)
            mon.close(fitter.yfit, ref.result(x, got), "yfit:" + how, rtol=1e-9, atol=1e-9)
            mon.count("fits")
            mon.count("fits with " + fname)
            mon.count("kept", int(bool(kk)))
            mon.state(how, name, step)
        mon.sample("%s of %s" % (fname, name), chisq=chi, start=chi0)


# fitters that know about limits, and where these come from
LIMITED = [("LM", "priors"), ("LM", "argument"), ("Curve", "priors"), ("Curve", "argument"), ("CurveTrf", "priors"),
           ("CurveTrf", "argument"), ("Amoeba", "argument"), ("LBFGSB", "argument"), ("TNC", "argument"), ("SLSQP", "argument"),
           ("auto", "argument")]


def limited(mon, rng, idx):
    """ limits on the parameters are respected """
    fname, source = LIMITED[idx % len(LIMITED)]
    ctor, gap = FITTERS[fname]
    if fname == "Curve":
        ctor = lambda x, m, **kw: bf.CurveFitter(x, m, **kw)
    name, make, x, truth = fits.nonlinear_model(rng)
    truth = np.array(truth, dtype=float)
    npar, n = len(truth), len(x)
    y = np.asarray(make().result(x, truth)) + rng.normal(0, 0.1, n)
    w = rng.uniform(0.3, 2, n) if rng.random() < 0.5 else None
    wgt = fits.combined(n, w, None)
    size = 0.1 * np.abs(truth) + 0.02
    lo, hi = truth - 3 * size, truth + 3 * size
    act = []
    for k in range(npar):
        if rng.random() < 0.4:
            act.append(k)
            if rng.random() < 0.5:
                lo[k], hi[k] = truth[k] + size[k], truth[k] + 3 * size[k]
            else:
                lo[k], hi[k] = truth[k] - 3 * size[k], truth[k] - size[k]
    how = "%s/%s" % (fname, source)
    keep = {}
    if npar > 2 and rng.random() < 0.4:
        k = int(rng.integers(0, npar))
        keep = {k: float(0.5 * (lo[k] + hi[k]))}
        how += "/keep"
    free = [k for k in range(npar) if k not in keep]
    start = lo + (hi - lo) * rng.uniform(0.3, 0.7, npar)
    model = make()
    model.parameters = start.copy()
    kw = {}
    if w is not None:
        kw["weights"] = w
    if keep:
        kw["keep"] = dict(keep)
    if source == "priors":
        model.setLimits(lo.tolist(), hi.tolist())
    else:
        kw["limits"] = [lo.copy(), hi.copy()]
    if fname == "Amoeba":
        kw.update(maxiter=4000, size=(0.2 * (hi - lo))[free])
    ref = make()

    def res(q):
        return np.sqrt(wgt) * (y - np.asarray(ref.result(x, q)))
    begin = start.copy()
    for k, v in keep.items():
        begin[k] = v
    with warnings.catch_warnings(), mon.guarded("error:limits:" + how, model=name):
        warnings.simplefilter("ignore")
        fitter = ctor(x, model)
        try:
            got = np.asarray(fitter.fit(y, **kw), dtype=float)
        except bf.ConvergenceError:
            mon.expect(False, "converged:limits:" + how, model=name)
            return
        tol = 1e-9 * (1 + np.abs(truth))
        mon.expect(np.all(got >= lo - tol) and np.all(got <= hi + tol), "within-limits:" + how, model=name, got=got, low=lo, high=hi)
        for k, v in keep.items():
            mon.expect(got[k] == v, "kept:limits:" + how)
        chi0, chi = float(np.sum(res(begin) ** 2)), float(np.sum(res(got) ** 2))
        mon.close(fitter.chisq, chi, "reported-chisq:limits:" + how, rtol=1e-7, model=name)
        if fname not in ("LM", "Amoeba", "SLSQP"):
            best, cmin = fits.polish(res, got, free, lo, hi)
            excess = min((chi - cmin) / max(cmin, 1e-3), (chi - cmin) / max(abs(chi0 - cmin), 1e-10))
            for t in range(3):
                if excess > 0.03 and not fname.startswith("Curve"):
                    model.parameters = got.copy()
                    got = np.asarray(fitter.fit(y, **kw), dtype=float)
                    chi = float(np.sum(res(got) ** 2))
                    excess = min((chi - cmin) / max(cmin, 1e-3), (chi - cmin) / max(abs(chi0 - cmin), 1e-10))
                    mon.count("refined")
            mon.expect(excess <= (0.15 if fname in ("LBFGSB", "auto") else 0.03), "optimum:limits:" + how, model=name, excess=excess, got=got, polished=best, low=lo, high=hi)
        mon.count("limited fits")
        mon.count("limits active", int(bool(act)))
        mon.state("limits", how, name, len(act))


ERR = ["gauss", "laplace", "cauchy", "poisson"]
MLF = ["Amoeba", "NelderMead", "Powell", "CG", "BFGS", "LBFGSB", "TNC"]


def likely(mon, rng, idx):
    """ maximum likelihood: the likelihood is at its maximum; reported value is that of the parameters """
    from scipy import stats
    err = ERR[idx % len(ERR)]
    fname = MLF[(idx // len(ERR)) % len(MLF)]
    if err == "laplace" and fname not in ("Amoeba", "NelderMead", "Powell"):
        fname = "Amoeba"
    if err == "gauss" and rng.random() < 0.4:
        fname = str(rng.choice(["NewtonCG", "Dogleg", "TrustNCG"]))         # with second derivatives
    ctor, gap = FITTERS[fname]
    name, make, x, truth = fits.nonlinear_model(rng)
    if err == "poisson":
        name, make, x = "gauss+const", lambda: bf.GaussModel() + bf.PolynomialModel(0), np.sort(rng.uniform(-3, 3, 60))
        truth = [rng.uniform(10, 30), rng.uniform(-1, 1), rng.uniform(0.6, 1.0), rng.uniform(5, 10)]
    truth = np.array(truth, dtype=float)
    npar, n = len(truth), len(x)
    f0 = np.asarray(make().result(x, truth))
    scale = float(rng.uniform(0.1, 0.5))
    y = rng.poisson(f0).astype(float) if err == "poisson" else f0 + rng.laplace(0, 0.1, n)
    w = rng.uniform(0.4, 2, n) if err in ("gauss", "laplace") and rng.random() < 0.5 else None
    ww = np.ones(n) if w is None else w
    ref = make()

    def logl(q):
        f = np.asarray(ref.result(x, q))
        if err == "gauss":
            return float(np.sum(ww * stats.norm.logpdf(y, f, scale)))
        if err == "laplace":
            return float(np.sum(ww * stats.laplace.logpdf(y, f, scale)))
        if err == "cauchy":
            return float(np.sum(stats.cauchy.logpdf(y, f, scale)))
        if np.any(f <= 0):
            return -np.inf
        return float(np.sum(stats.poisson.logpmf(y, f)))
    model = make()
    how = "%s/%s%s" % (err, fname, "/w" if w is not None else "")
    keep = {}
    if npar > 2 and rng.random() < 0.3:
        k = int(rng.integers(0, npar))
        keep = {k: float(truth[k] * 1.02)}
        how += "/keep"
    free = [k for k in range(npar) if k not in keep]
    start = truth * (1 + 0.04 * rng.uniform(-1, 1, npar))
    model.parameters = start.copy()
    begin = start.copy()
    for k, v in keep.items():
        begin[k] = v
    kw = {}
    if w is not None:
        kw["weights"] = w
    if keep:
        kw["keep"] = dict(keep)
    if fname == "Amoeba":
        kw.update(maxiter=6000, size=0.2)
    else:
        kw["tolerance"] = 1e-6
    ckw = {} if err == "poisson" else {"scale": scale}
    with warnings.catch_warnings(), mon.guarded("error:likely:" + how, model=name):
        warnings.simplefilter("ignore")
        fitter = ctor(x, model, errdis=err, **ckw)
        try:
            got = np.asarray(fitter.fit(y, **kw), dtype=float)
        except bf.ConvergenceError:
            mon.expect(False, "converged:" + how, model=name)
            return
        l0, l1 = logl(begin), logl(got)
        mon.close(fitter.logLikelihood, l1, "reported-logL:" + how, rtol=1e-6, atol=1e-6, model=name)
        mon.expect(l1 >= l0 - 1e-7 * abs(l0), "not-worse-than-start:" + how, model=name, start=l0, end=l1)
        for k, v in keep.items():
            mon.expect(got[k] == v, "kept:" + how, got=got, keep=keep)
        # neighbourhood
        worst, at = 0.0, None
        for t in range(12 * len(free)):
            q = got.copy()
            k = free[t % len(free)]
            q[k] += rng.choice([-1, 1]) * 10.0 ** rng.uniform(-3, -1) * (0.1 + abs(truth[k]))
            gain = logl(q) - l1
            if gain > worst:
                worst, at = gain, q
        tol = 0.25 if err != "laplace" else 1.0
        tol = max(tol, 0.02 * abs(l1 - l0))
        mon.expect(worst <= tol, "optimum:" + how, model=name, gain=worst, got=got, better=at)
        mon.count("likelihood fits")
        mon.count("likelihood fits with " + err)
        mon.state(how, name)


def amoeba(mon, rng, idx):
    """ AnnealingAmoeba on its own """
    nd = int(rng.integers(2, 5))
    A = rng.normal(0, 1, (nd, nd))
    A = A @ A.T + np.eye(nd)
    c = rng.uniform(-2, 2, nd)
    calls = []
    inf = float("inf")
    kind = idx % 4
    lo, hi = np.full(nd, -inf), np.full(nd, inf)
    limits = None
    if kind >= 1:
        for k in range(nd):
            t = rng.integers(0, 4)
            if t & 1:
                lo[k] = rng.uniform(-2.5, 0)
            if t & 2:
                hi[k] = rng.uniform(0.1, 2.5)
        limits = [lo.copy(), hi.copy()]
        if kind == 3 and rng.random() < 0.5:
            lo, hi = np.full(nd, -1.5), np.full(nd, 1.5)
            limits = [-1.5, 1.5]

    def func(p):
        calls.append(np.array(p))
        d = np.asarray(p) - c
        return float(d @ A @ d)
    x0 = np.where(np.isfinite(lo), lo, -1.0) * 0.5 + np.where(np.isfinite(hi), hi, 1.0) * 0.5
    if kind == 3:
        for k in range(nd):
            if np.isfinite(lo[k]) and rng.random() < 0.4:
                x0[k] = lo[k] - rng.uniform(0, 1)           # outside its limit
    xs = x0.copy()
    size = float(rng.uniform(0.1, 1.0)) if rng.random() < 0.5 else rng.uniform(0.1, 1.0, nd)
    s0 = np.array(size, copy=True)
    temp = 0 if kind != 2 else float(rng.uniform(0.1, 5))
    how = ["free", "limits", "annealing", "start-outside"][kind]
    with mon.guarded("error:amoeba:" + how):
        am = bf.AnnealingAmoeba(func, x0, size=size, limits=limits, temp=temp, maxiter=5000, reltol=1e-7, abstol=1e-7,
                                seed=int(rng.integers(1, 10000)))
        try:
            p = np.array(am.minimize())
        except bf.ConvergenceError:
            mon.expect(False, "amoeba-converged:" + how)
            return
        mon.close(x0, xs, "amoeba-start-untouched:" + how, rtol=0)
        mon.close(size, s0, "amoeba-size-untouched:" + how, rtol=0)
        pts = np.array(calls)
        mon.expect(np.all(pts >= lo - 1e-12) and np.all(pts <= hi + 1e-12), "amoeba-within-limits:" + how, low=lo, high=hi,
                   lowest=pts.min(axis=0), highest=pts.max(axis=0))
        d = p - c
        mon.close(am.fopt, float(d @ A @ d), "amoeba-fopt:" + how, rtol=1e-9, atol=1e-12)
        best = min(float((q - c) @ A @ (q - c)) for q in calls)
        mon.close(am.fopt, best, "amoeba-best-ever:" + how, rtol=1e-9, atol=1e-6)
        mon.expect(len(am.simplex) == nd + 1, "amoeba-simplex")
        for s, v in zip(am.simplex, am.values):
            mon.close(v, float((s - c) @ A @ (s - c)), "amoeba-simplex-values:" + how, rtol=1e-9, atol=1e-10)
        if limits is None:
            mon.close(p, c, "amoeba-minimum:" + how, rtol=0, atol=3e-3)
        mon.count("amoeba", 1)
        mon.count("function calls", len(calls))
        mon.state("amoeba", how, nd)


def landscape(mon, rng, idx):
    """ the function that is handed to the minimiser, its gradient and its curvature """
    from scipy import stats
    err = [None, "gauss", "laplace", "cauchy", "poisson"][idx % 5]
    linear = rng.random() < 0.4
    if err == "poisson":
        make, x = (lambda: bf.GaussModel() + bf.PolynomialModel(0)), np.sort(rng.uniform(-3, 3, 30))
        truth = np.array([rng.uniform(10, 30), rng.uniform(-1, 1), rng.uniform(0.6, 1.0), rng.uniform(5, 10)])
        name, linear = "gauss+const", False
    elif linear:
        d = int(rng.integers(1, 5))
        make, x = (lambda: bf.PolynomialModel(d)), np.sort(rng.uniform(-2, 2, 30))
        truth, name = rng.uniform(-2, 2, d + 1), "polynomial"
    else:
        name, make, x, truth = fits.nonlinear_model(rng)
        truth = np.array(truth, dtype=float)
    npar, n = len(truth), len(x)
    f0 = np.asarray(make().result(x, truth))
    scale = float(rng.uniform(0.3, 2.0))
    y = rng.poisson(f0).astype(float) if err == "poisson" else f0 + rng.normal(0, 0.3, n)
    w = rng.uniform(0.4, 2, n) if err in (None, "gauss", "laplace") and rng.random() < 0.7 else None
    ww = np.ones(n) if w is None else w
    ref = make()

    def objective(q):
        f = np.asarray(ref.result(x, q))
        if err is None:
            return float(np.sum(ww * (y - f) ** 2))
        if err == "poisson":
            return -float(np.sum(stats.poisson.logpmf(y, f)))
        pdf = {"gauss": stats.norm, "laplace": stats.laplace, "cauchy": stats.cauchy}[err]
        return -float(np.sum(ww * pdf.logpdf(y, f, scale)))
    model = make()
    here = truth * (1 + 0.03 * rng.uniform(-1, 1, npar))
    model.parameters = here.copy()
    index = None
    if npar > 1 and rng.random() < 0.6:
        index = np.sort(rng.permutation(npar)[:int(rng.integers(1, npar))])
    free = np.arange(npar) if index is None else index
    how = "%s%s%s" % (err, "/w" if w is not None else "", "/index" if index is not None else "")
    kw = {} if err in (None, "poisson") else {"scale": scale}
    user = rng.random() < 0.3
    asked = []
    if user:
        def gradient(q):
            asked.append(np.array(q))
            return np.array([2.5 * k for k in range(npar)])
        kw["gradient"] = gradient
    with warnings.catch_warnings(), mon.guarded("error:landscape:" + how, model=name):
        warnings.simplefilter("ignore")
        fitter = bf.ScipyFitter(x, model, errdis=err, **kw)
        yk, wk = y.copy(), None if w is None else w.copy()
        func, grad, hess = fitter.makeFuncs(yk, weights=wk, index=index)
        for t in range(3):
            q = here.copy()
            q[free] = (truth * (1 + 0.05 * rng.uniform(-1, 1, npar)))[free]
            mon.close(func(q[free]), objective(q), "landscape:" + how, rtol=1e-9, atol=1e-9, model=name)

            def part(z):
                r = q.copy()
                r[free] = z
                return objective(r)
            num = np.array([(part(q[free] + h) - part(q[free] - h)) / (2 * h.sum()) for h in
                            np.eye(len(free)) * 1e-6 * (0.1 + np.abs(q[free]))])
            got = np.asarray(grad(q[free]))
            if user:
                mon.close(got, 2.5 * free, "user-gradient:" + how, model=name)
                mon.close(asked[-1], q, "user-gradient-asked:" + how, model=name)
                continue
            near = err == "laplace" and np.min(np.abs(y - np.asarray(ref.result(x, q)))) < 1e-4
            if not near:
                mon.close(got, num, "gradient:" + how, rtol=1e-4, atol=1e-5 * (1 + np.max(np.abs(num))), model=name, q=q, index=index)
            mon.count("gradients")
            if err in (None, "gauss") and linear:
                H = np.asarray(hess(q[free]))
                J = np.asarray(ref.partial(x, q))[:, free]
                H0 = J.T @ (J * ww[:, None])
                H0 = 2 * H0 if err is None else H0 / scale ** 2
                mon.close(H, H0, "curvature:" + how, rtol=1e-8, atol=1e-8 * np.max(np.abs(H0)), model=name)
                mon.count("curvatures")
        mon.close(yk, y, "landscape-untouched:" + how, rtol=0)
        mon.state("landscape", how, name, user)


def options(mon, rng, idx):
    """ limits, constraints, gradients and iterations of a fitter used for one fit after another """
    from scipy.optimize import lsq_linear
    d = int(rng.integers(1, 4))
    npar, n = d + 1, int(rng.integers(12, 40))
    x = rng.uniform(-1, 1, n)
    truth = rng.uniform(-2, 2, npar)
    D = x[:, None] ** np.arange(npar)
    method = [None, None, None, "SLSQP", "COBYLA", "TNC", "L-BFGS-B", "BFGS", "CG", "NEWTON-CG"][idx % 10]
    model = bf.PolynomialModel(d)
    kw = {}
    gk = ["default", "none", "callable"][int(rng.integers(3))]
    y = None
    w = np.ones(n)

    def gradient(q):
        return -2 * D.T @ (w * (y - D @ np.asarray(q)))
    if method in ("COBYLA", "NEWTON-CG"):
        gk = "default"
    if gk == "none":
        kw["gradient"] = None
    elif gk == "callable":
        kw["gradient"] = gradient
    with warnings.catch_warnings(), mon.guarded("error:options:%s" % method):
        warnings.simplefilter("ignore")
        fitter = bf.ScipyFitter(x, model, method=method, **kw)
        hist = []
        for step in range(4):
            y = D @ truth + rng.normal(0, 0.2, n)
            w = rng.uniform(0.5, 2, n) if rng.random() < 0.5 else np.ones(n)
            what = ["plain", "limits", "constraint"][int(rng.integers(3))]
            if what == "limits" and method not in (None, "TNC", "L-BFGS-B", "SLSQP"):
                what = "plain"
            if what == "constraint" and method not in (None, "SLSQP", "COBYLA"):
                what = "plain"
            keep = {}
            if rng.random() < 0.4:
                k = int(rng.integers(npar))
                keep = {k: float(truth[k] + rng.uniform(-0.2, 0.2))}
            free = [k for k in range(npar) if k not in keep]
            S = np.sqrt(w)[:, None] * D
            off = np.zeros(npar)
            for k, v in keep.items():
                off[k] = v
            z = np.sqrt(w) * (y - D @ off)
            A = S[:, free]
            best = np.linalg.lstsq(A, z, rcond=None)[0]
            fk = {"keep": dict(keep)} if keep else {}
            tag = "%s/%s%s%s" % (method, what, "/keep" if keep else "", "/" + gk if gk != "default" else "")
            inside = lambda p: True
            if what == "limits":
                lo = np.full(npar, -10.0)
                hi = np.full(npar, 10.0)
                for j, k in enumerate(free):
                    r = rng.random()
                    if r < 0.3:
                        hi[k] = best[j] - rng.uniform(0.1, 0.5)
                    elif r < 0.6:
                        lo[k] = best[j] + rng.uniform(0.1, 0.5)
                fk["limits"] = [lo.tolist(), hi.tolist()]
                best = lsq_linear(A, z, (lo[free], hi[free])).x
                inside = lambda p: np.all(p[free] >= lo[free] - 1e-6) and np.all(p[free] <= hi[free] + 1e-6)
            elif what == "constraint":
                # a.p > b, as a function of all parameters
                a = rng.normal(0, 1, npar)
                b = float(a[free] @ best + a @ off + rng.uniform(-0.5, 0.5))
                fk["constraints"] = [lambda p, a=a, b=b: float(a @ np.asarray(p) - b)]
                if rng.random() < 0.3:
                    fk["constraints"].append(lambda p: 1000.0 - float(np.sum(np.square(p))))
                short = b - a[free] @ best - a @ off
                if short > 0:
                    C = np.linalg.inv(A.T @ A)
                    g = C @ a[free]
                    best = best + g * short / (a[free] @ g)
                inside = lambda p: a @ p >= b - 1e-4
            model.parameters = truth + 0.1 * rng.normal(size=npar)
            if what == "limits":
                model.parameters = np.clip(model.parameters, lo, hi)
            for k, v in keep.items():
                model.parameters[k] = v
            keepcons = list(fk.get("constraints", []))
            got = np.asarray(fitter.fit(y, weights=w, tolerance=1e-9 if gk != "none" and method != "NEWTON-CG" else 1e-6, **fk), dtype=float)
            hist.append(what)
            if "constraints" in fk:
                mon.expect(fk["constraints"] == keepcons, "options-untouched:" + tag)
            want = off.copy()
            want[free] = best
            mon.expect(inside(got), "obeyed:" + tag, history=hist, got=got, want=want)
            cost = float(np.sum(w * (y - D @ got) ** 2))
            least = float(np.sum(w * (y - D @ want) ** 2))
            for t in range(3):
                if cost > least + 0.01 * max(least, 0.05):          # stopped early: go on from there
                    got = np.asarray(fitter.fit(y, weights=w, tolerance=1e-6, **fk), dtype=float)
                    cost = float(np.sum(w * (y - D @ got) ** 2))
                    mon.count("refined")
            mon.expect(inside(got), "obeyed:" + tag, history=hist, got=got, want=want)
            mon.expect(cost <= least + 0.01 * max(least, 0.05), "optimum:options:" + tag, history=hist, got=got, want=want, cost=cost, least=least)
            mon.close(fitter.chisq, cost, "reported-chisq:options:" + tag, rtol=1e-6, atol=1e-9)
            for k, v in keep.items():
                mon.expect(got[k] == v, "kept:options:" + tag)
            mon.count("option fits")
            mon.count("option fits with " + what)
            mon.state("options", tag, step)


def iterations(mon, rng, idx):
    """ a fitter which is not allowed enough iterations says so, and otherwise stays within them """
    name, make, x, truth = fits.nonlinear_model(rng)
    truth = np.array(truth, dtype=float)
    y = np.asarray(make().result(x, truth)) + rng.normal(0, 0.1, len(x))
    fname = ["LM", "Amoeba", "NelderMead", "Powell", "CG", "BFGS", "NewtonCG"][idx % 7]
    ctor = FITTERS[fname][0]
    most = int(rng.integers(1, 4)) if idx % 2 else 5000
    via = ["ctor", "fit"][int(rng.integers(2))]
    model = make()
    model.parameters = truth * 1.3
    how = "%s/%s" % (fname, via)
    with warnings.catch_warnings(record=True) as warned:
        warnings.simplefilter("always")
        with mon.guarded("error:iterations:" + how, model=name):
            fitter = ctor(x, model, **({"maxIter": most} if via == "ctor" else {}))
            kw = {"maxiter": most} if via == "fit" else {}
            if fname == "LM":
                kw["tolerance"] = 1e-13
            try:
                fitter.fit(y, **kw)
                told = any("iterations" in str(v.message) for v in warned)
            except bf.ConvergenceError:
                told = True
            if most > 100:
                mon.expect(not told or fname not in ("LM", "NelderMead"), "enough-iterations:" + how, model=name)
            else:
                used = int(getattr(fitter, "iter", 0))
                extra = 1 if fname == "Powell" else 0
                mon.expect(used <= most + 1 + extra, "within-iterations:" + how, used=used, most=most)
                mon.expect(told or used < most + 1, "says-so:" + how, used=used, most=most, model=name)
            mon.count("iterations")
            mon.state("iterations", how, most > 100)


CASES = [Case("leastsq", leastsq, quick=480, thorough=8000, chunk=16),
         Case("limited", limited, quick=176, thorough=3000, chunk=16),
         Case("likely", likely, quick=168, thorough=3000, chunk=8),
         Case("amoeba", amoeba, quick=80, thorough=1500, chunk=20),
         Case("landscape", landscape, quick=150, thorough=3000, chunk=15),
         Case("options", options, quick=120, thorough=2000, chunk=15),
         Case("iterations", iterations, quick=56, thorough=700, chunk=14)]
REQUIRE = {"gradients": 150, "curvatures": 20, "option fits": 250, "option fits with limits": 50,
           "option fits with constraint": 50, "iterations": 40, "fits": 700, "kept": 150, "limited fits": 120, "limits active": 80, "likelihood fits": 120, "amoeba": 60}
RULE = "distinct = (fitter, what it optimises, model, weights, accuracy, kept parameters, source of limits, position in history)"
ASSUMPTIONS = ["start positions are within a few percent of the truth, noise is small: the problems are well posed",
               "an optimum is reached when an independent optimiser started there gains less than the tolerance of the method allows",
               "scipy's SLSQP is allowed to end in another local minimum than the nearest"]
