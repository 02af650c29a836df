"""C37  Data points are interchangeable, and a weight counts points."""
import os
import warnings
import numpy as np
import BayesicFitting as bf
import errdis
import fits
from harness import Case

RULE = "distinct = (fitter or distribution, model, transformation of the data, weights, accuracy, kept parameters)"
ASSUMPTIONS = ["problems are well posed: iterative fitters start near the solution and are compared with their own tolerance",
               "robust kernels that do not redescend: only one fixed point"]
REQUIRE = {"fits": 250, "fits:permuted": 60, "fits:duplicated": 60, "fits:removed": 60, "robust": 30, "likelihoods": 200, "gradients": 150, "split": 60}


def S(m, **k0):
    return lambda x, mod, **kw: bf.ScipyFitter(x, mod, method=m, **kw)


LINEAR = {"Fitter": (lambda x, m, **kw: bf.Fitter(x, m, **kw), 1e-6),
          "QRFitter": (lambda x, m, **kw: bf.QRFitter(x, m, **kw), 1e-6)}
ITER = {"LM": (lambda x, m, **kw: bf.LevenbergMarquardtFitter(x, m, **kw), 1e-4),
        "Curve": (lambda x, m, **kw: bf.CurveFitter(x, m, **kw), 1e-4),
        "BFGS": (lambda x, m, **kw: bf.ScipyFitter(x, m, method="BFGS", **kw), 2e-3),
        "LM-laplace": (lambda x, m, **kw: bf.LevenbergMarquardtFitter(x, m, **kw), 1e-4),
        "BFGS-gauss": (lambda x, m, **kw: bf.ScipyFitter(x, m, method="BFGS", errdis="gauss", **kw), 2e-3),
        "NelderMead": (lambda x, m, **kw: bf.ScipyFitter(x, m, method="NELDER-MEAD", **kw), 1e-2),
        "Amoeba": (lambda x, m, **kw: bf.AmoebaFitter(x, m, **kw), 1e-2),
        "Amoeba-gauss": (lambda x, m, **kw: bf.AmoebaFitter(x, m, errdis="gauss", **kw), 1e-2)}
ITER.pop("LM-laplace")


def transform(rng, how, n, w):
    """ index into the data, weights """
    if how == "permuted":
        ix = rng.permutation(n)
        return ix, (None if w is None else w[ix])
    if how == "duplicated":
        # every point as often as its weight ; part of the weight is left on the points
        c = np.maximum(w, 1).astype(int)
        ix = np.repeat(np.arange(n), c)
        ww = np.where(w > 0, 1.0, 0.0)[ix]
        if rng.random() < 0.5:
            pm = rng.permutation(len(ix))
            ix, ww = ix[pm], ww[pm]
        return ix, (None if np.all(ww == 1) and rng.random() < 0.7 else ww)
    ix = np.flatnonzero(w > 0)
    return ix, w[ix]


def do_fit(ctor, factory, x, y, w, acc, par0, keep, linear, lim, fname):
    m = factory()
    ft = ctor(x, m)
    kw = {}
    if w is not None:
        kw["weights"] = w
    if acc is not None:
        kw["accuracy"] = acc
    if keep:
        kw["keep"] = keep
    if not linear:
        kw["inipar" if fname == "Curve" else "par0"] = np.array(par0, dtype=float)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = np.array(ft.fit(y, **kw), dtype=float)
        out = {"par": p}
        try:
            out["chisq"] = float(ft.chisq)
        except AttributeError:          # maximum likelihood fitters may have none
            out["chisq"] = 0.0
        out["scale"] = float(ft.scale)
        out["stdevs"] = np.array(ft.stdevs, dtype=float)
        out["sumwgt"] = float(ft.sumwgt)
        out["evidence"] = float(ft.getEvidence(limits=[-lim, lim], noiseLimits=[1e-3, 1e3]))
        out["fixedlz"] = float(ft.getEvidence(limits=[-lim, lim]))
    return out


def compare(mon, tag, how, a, b, tol, linear, **wit):
    s = np.maximum(a["stdevs"], 1e-300)
    d = np.max(np.where(a["stdevs"] > 0, np.abs(a["par"] - b["par"]) / s, np.abs(a["par"] - b["par"]))) if len(s) else 0.0
    q = 0.05 if not linear else tol
    mon.count("fits")
    mon.count("fits:" + how)
    mon.expect(d <= max(q, tol), "parameters/%s/%s" % (tag, how), "off by %.3g standard deviations" % d, a=a, b=b, **wit)
    # at the same parameters : second order in the differences
    t = max(tol, 1e-8)
    mon.close(b["chisq"], a["chisq"], "chisq/%s/%s" % (tag, how), rtol=t, atol=1e-9, **wit)
    mon.close(b["scale"], a["scale"], "scale/%s/%s" % (tag, how), rtol=t, atol=1e-9, **wit)
    mon.close(b["sumwgt"], a["sumwgt"], "sumwgt/%s/%s" % (tag, how), rtol=1e-9, **wit)
    ts = t if linear else max(20 * t, 0.02)
    mon.close(b["stdevs"], a["stdevs"], "stdevs/%s/%s" % (tag, how), rtol=ts, atol=1e-9, **wit)
    te = 1e-5 if linear else 0.05
    for k in ("evidence", "fixedlz"):
        mon.close(b[k], a[k], "%s/%s/%s" % (k, tag, how), rtol=t, atol=te, **wit)


def case_fit(mon, rng, idx):
    linear = bool(rng.random() < 0.5)
    if linear:
        fname = sorted(LINEAR)[int(rng.integers(len(LINEAR)))]
        ctor, tol = LINEAR[fname]
        name, factory, x = fits.linear_model(rng)
        par0 = rng.normal(0, 1, factory().npchain)
    else:
        fname = sorted(ITER)[idx % len(ITER)]
        ctor, tol = ITER[fname]
        name, factory, x, par0 = fits.nonlinear_model(rng)
        par0 = np.array(par0, dtype=float)
    n = len(x)
    y = np.asarray(factory().result(x, par0), dtype=float) + rng.normal(0, 0.1, n)
    how = ["permuted", "duplicated", "removed"][int(rng.integers(3))]
    w = rng.integers(1, 4, n).astype(float)
    if how == "removed" or rng.random() < 0.3:
        w[rng.permutation(n)[:int(rng.integers(1, max(2, n // 5)))]] = 0.0
    if how == "permuted":
        w = [None, w, np.exp(rng.uniform(-1, 1, n))][int(rng.integers(3))]
    if how == "removed" and rng.random() < 0.5:
        w = w * np.exp(rng.uniform(-1, 1, n))
    # points of no weight can have any value
    if w is not None and how == "removed":
        y[w == 0] += rng.normal(0, 5, int(np.sum(w == 0)))
    acc = None
    if rng.random() < 0.4 and "gauss" not in fname:
        acc = np.exp(rng.uniform(-1, 1, n))
    npar = len(par0)
    keep = None
    if npar > 2 and rng.random() < 0.25 :
        k = int(rng.integers(npar))
        keep = {k: float(par0[k])}
    if npar - (1 if keep else 0) < 2 and fname in ("Amoeba", "Amoeba-gauss"):
        return
    D = None
    if linear:
        D, _ = fits.design(factory(), x)
        if np.linalg.cond(D if w is None else D * np.sqrt(w)[:, None]) > 1e4:
            return
    lim = 50.0 + 3 * float(np.max(np.abs(par0)))
    wit = dict(fitter=fname, model=name, n=n, weights=w, accuracy=acc, keep=keep)
    ix, w2 = transform(rng, how, n, w)
    with mon.guarded("error:" + fname, **wit):
        a = do_fit(ctor, factory, x, y, w, acc, par0, keep, linear, lim, fname)
        b = do_fit(ctor, factory, x[ix], y[ix], w2, None if acc is None else acc[ix], par0, keep, linear, lim, fname)
        if not linear and abs(a["chisq"] - b["chisq"]) > 0.5 * min(a["chisq"], b["chisq"]):
            mon.count("other minimum")
            return
        mon.state(fname, name, how, w is None, acc is None, keep is None)
        compare(mon, fname, how, a, b, tol, linear, **wit)


KERNELS = ["Huber", "Gauss", "Cosine", "Biweight", "Lorentz"]


def case_robust(mon, rng, idx):
    d = int(rng.integers(0, 3))
    n = int(rng.integers(20, 50))
    x = rng.uniform(-2, 2, n)
    y = bf.PolynomialModel(d).result(x, rng.normal(0, 1, d + 1)) + rng.normal(0, 0.2, n)
    y[rng.integers(0, n, 2)] += rng.uniform(1, 3)
    how = ["permuted", "duplicated", "removed"][idx % 3]
    w = rng.integers(1, 4, n).astype(float)
    if how == "removed":
        w[rng.permutation(n)[:3]] = 0.0
    ix, w2 = transform(rng, how, n, w)
    K = bf.Huber if rng.random() < 0.6 else bf.Lorentz
    lm = bool(rng.random() < 0.4)
    out = []
    mon.count("robust")
    mon.state("robust", how, d, K.__name__, lm)
    with warnings.catch_warnings(), mon.guarded("error:robust", kernel=K.__name__, how=how):
        warnings.simplefilter("ignore")
        for xx, yy, ww in ((x, y, w), (x[ix], y[ix], w2)):
            m = bf.PolynomialModel(d)
            ft = (bf.LevenbergMarquardtFitter if lm else bf.Fitter)(xx, m)
            r = bf.RobustShell(ft, kernel=K, domain=4 if rng is None else 3.5)
            p = np.array(r.fit(yy, weights=ww))
            out.append((p, np.array(r.weights, dtype=float), float(r.scale)))
        (p1, v1, s1), (p2, v2, s2) = out
        mon.close(p2, p1, "parameters/robust/" + how, rtol=2e-3, atol=2e-3, kernel=K.__name__)
        mon.close(s2, s1, "scale/robust/" + how, rtol=5e-3, kernel=K.__name__)
        f1 = np.where(w > 0, v1 / np.where(w > 0, w, 1), 0)[ix]
        ww2 = np.ones(len(ix)) if w2 is None else w2
        f2 = np.where(ww2 > 0, v2 / np.where(ww2 > 0, ww2, 1), 0)
        mon.close(f2, np.where(ww2 > 0, f1, 0), "weights/robust/" + how, rtol=5e-3, atol=2e-2, kernel=K.__name__)


def remake(s, ix, w):
    """ the same problem with points ix and weights w """
    acc = s.acc if np.ndim(s.acc) == 0 else np.asarray(s.acc)[ix]
    P = bf.MultipleOutputProblem if s.multi else bf.ClassicProblem
    return P(model=s.model, xdata=np.asarray(s.x)[ix], ydata=np.asarray(s.y)[ix], weights=w, accuracy=acc)


def case_likelihood(mon, rng, idx):
    kinds = [k for k in errdis.KINDS if k != "gauss2d"]
    kind = kinds[idx % len(kinds)]
    s = errdis.make(rng, kind, {"weights": int(rng.choice([0, 2, 3]))})
    if s.w is not None and np.ndim(s.w) > 1:
        return
    n = len(s.x)
    how = ["permuted", "duplicated", "removed", "split"][int(rng.integers(4))]
    if s.w is None and how in ("duplicated", "removed"):
        how = "permuted"
    if not s.accept:
        how = how if how in ("permuted", "split") else "permuted"
    q = np.array(s.allpars, dtype=float)
    fi = np.arange(len(q))
    e = s.errdis
    tag = "%s/%s" % (s.tag, how)
    wit = dict(setup=s.text, allpars=q)
    mon.state(s.form, how)
    with warnings.catch_warnings(), np.errstate(all="ignore"), mon.guarded("error:" + s.tag, **wit):
        warnings.simplefilter("ignore")
        full = float(e.logLikelihood(s.problem, q.copy()))
        grad = np.array(e.partialLogL(s.problem, q.copy(), fi), dtype=float)
        if how == "split":
            c = rng.random(n) < 0.5
            if c.all() or not c.any():
                return
            ps = [remake(s, np.flatnonzero(v), None if s.w is None else np.asarray(s.w)[v]) for v in (c, ~c)]
            mon.count("split")
        else:
            ix, w2 = transform(rng, how, n, None if s.w is None else np.asarray(s.w))
            ps = [remake(s, ix, w2)]
        mon.count("likelihoods")
        got = sum(float(e.logLikelihood(p, q.copy())) for p in ps)
        mon.close(got, full, "logL/" + tag, rtol=1e-9, atol=1e-8, **wit)
        if s.kind != "uniform" and "uniform" not in s.kinds and np.isfinite(full):
            mon.count("gradients")
            g = sum(np.array(e.partialLogL(p, q.copy(), fi), dtype=float) for p in ps)
            mon.close(g, grad, "gradient/" + tag, rtol=1e-7, atol=1e-7 * (1 + np.max(np.abs(grad))), **wit)
        if how in ("permuted", "duplicated", "removed") and hasattr(e, "getScale") and s.kind in ("gauss", "laplace", "uniform") and np.ndim(s.acc) == 0:
            mon.count("scales")
            a, b = float(e.getScale(s.problem, q.copy())), float(e.getScale(ps[0], q.copy()))
            mon.close(b, a, "getScale/" + tag, rtol=1e-9, atol=1e-12, **wit)


CASES = [Case("fit", case_fit, quick=560, thorough=5000, limit=90, chunk=20),
         Case("robust", case_robust, quick=60, thorough=600, limit=60, chunk=10),
         Case("likelihood", case_likelihood, quick=400, thorough=5000, limit=60, chunk=20)]
