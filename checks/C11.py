"""C11  Linear fitters return the weighted least squares optimum."""
import numpy as np
import BayesicFitting as bf
import fits
from harness import Case

RULE = "distinct = (fitter, model, weights, accuracy, kept parameters, normalisations, position in the history of the fitter)"
ASSUMPTIONS = ["the model result is linear in the parameters, as observed by evaluating it at unit vectors",
               "a normalisation is a measurement of a linear combination of all parameters of the model",
               "problems with a condition number above 1e5 are skipped"]
REQUIRE = {"fits": 600, "weighted": 150, "accuracy": 150, "kept in fit": 80, "kept always": 80, "normalized": 60, "refits": 300}

FITTERS = {"Fitter": bf.Fitter, "QRFitter": bf.QRFitter}


def history(mon, rng, idx):
    fname = ["Fitter", "QRFitter"][idx % 2]
    name, make, x = fits.linear_model(rng)
    model = make()
    D, off = fits.design(make(), x)
    n, npar = D.shape
    if np.linalg.cond(D) > 1e4:
        return
    p0 = rng.normal(0, 1.5, npar)
    always = None
    if rng.random() < 0.35 and npar > 1:
        always = {int(k): float(rng.normal()) for k in rng.choice(npar, int(rng.integers(1, npar)), replace=False)}
    start = rng.normal(0, 1, npar)
    model.parameters = start.copy()
    tag = fname + ("/always" if always else "")
    with mon.guarded("error:" + tag, model=name, always=always):
        fitter = FITTERS[fname](x, model, keep=None if always is None else dict(always))
        norm = []
        for step in range(int(rng.integers(2, 6))):
            y = off + D @ p0 + rng.normal(0, 0.3, n)
            if rng.random() < 0.2:
                y = np.round(3 * y).astype(int)
            w, acc = fits.values(rng, n, "weights"), fits.values(rng, n, "accuracy")
            if rng.random() < 0.3:
                w = acc = None
            keep = None
            if rng.random() < 0.3 and npar > 1:
                keep = {int(k): float(rng.normal()) for k in rng.choice(npar, int(rng.integers(1, npar)), replace=False)}
            if rng.random() < 0.15:
                d = rng.normal(0, 1, npar)
                dat, nw = float(rng.normal()), float(np.exp(rng.uniform(-1, 3)))
                fitter.normalize(d if rng.random() < 0.5 else d.tolist(), dat, weight=nw)
                norm.append((d, dat, nw))
            kk = keep if keep is not None else always
            if keep is not None:
                # parameters kept at the initialization are free or not; the keep of this fit overrides them
                kk = keep
            wgt = fits.combined(n, w, acc)
            want, free = fits.lstsq(D, y, wgt, off, kk, norm)
            A = D[:, free] * np.sqrt(wgt)[:, None]
            if norm:
                A = np.vstack((A, [np.sqrt(t[2]) * t[0][free] for t in norm]))
            c = np.linalg.cond(A)
            if c > 1e5:
                continue
            how = "%s%s%s%s%s" % (tag, "/w" if w is not None else "", "/acc" if acc is not None else "", "/keep" if keep else "",
                                  "/norm" if norm else "")
            kw = {}
            if w is not None or rng.random() < 0.2:
                kw["weights"] = w
            if acc is not None:
                kw["accuracy"] = acc
            if keep is not None:
                kw["keep"] = dict(keep)
            y0 = y.copy()
            if rng.random() < 0.15 and acc is None:
                if keep is None and w is None:
                    yf = fitter.modelFit(y)
                else:
                    yf = fitter.modelFit(y, weights=w, keep=keep)
                got = np.array(model.parameters)
                mon.close(yf, off + D @ want, "modelFit:" + how, rtol=0, atol=1e-9 * c * c * (1 + np.abs(y).max()), model=name)
            else:
                got = np.asarray(fitter.fit(y, **kw), dtype=float)
            tol = 1e-11 * c * c * (1 + np.abs(y).max() + np.abs(want).max())
            mon.close(got, want, "optimum:" + how, rtol=0, atol=tol, model=name, step=step, keep=kk)
            mon.close(model.parameters, want, "model-parameters:" + how, rtol=0, atol=tol, model=name, step=step)
            mon.expect(np.array_equal(y0, y), "data-untouched:" + how)
            if np.array(got).shape == want.shape:
                for k in (kk or {}):
                    mon.expect(got[k] == kk[k], "kept:" + how, model=name, k=k, got=got, keep=kk)
                # no step away from the solution is an improvement, judged by the model itself
                def obj(q):
                    r = y - np.asarray(model.result(x, q))
                    return float(np.sum(wgt * r * r) + sum(nw * (dat - d @ q) ** 2 for d, dat, nw in norm))
                best = obj(got)
                for t in range(4):
                    q = got.copy()
                    q[free] += rng.normal(0, 10.0 ** -rng.integers(1, 5), len(free))
                    mon.expect(obj(q) >= best * (1 - 1e-9) - 1e-9, "no-improvement:" + how, model=name, best=best, other=obj(q))
                mon.close(fitter.yfit, off + D @ want, "yfit:" + how, rtol=0, atol=tol * (1 + np.abs(D).max()) * npar, model=name)
            mon.count("fits")
            mon.count("refits", int(step > 0))
            mon.count("weighted", int(w is not None))
            mon.count("accuracy", int(acc is not None))
            mon.count("kept in fit", int(keep is not None))
            mon.count("kept always", int(always is not None))
            mon.count("normalized", int(bool(norm)))
            mon.state(how, name, step)
            if rng.random() < 0.3:
                # things that are derived from a fit have no influence on the next
                for a in rng.choice(["stdevs", "scale", "covariance", "hessian", "design", "chisq"], 2):
                    try:
                        getattr(fitter, a)
                    except (RuntimeError, np.linalg.LinAlgError):
                        pass
            if rng.random() < 0.2:
                model.parameters = rng.normal(0, 1, npar)
        mon.sample("%s of %s, always keeping %s" % (fname, name, always))


def limited(mon, rng, idx):
    """ limitsFit: parameters beyond their limits are set there, the rest is fitted """
    fname = ["Fitter", "QRFitter"][idx % 2]
    name, make, x = fits.linear_model(rng)
    D, off = fits.design(make(), x)
    n, npar = D.shape
    if np.linalg.cond(D) > 1e3 or npar == 0:
        return
    model = make()
    p0 = rng.normal(0, 1.5, npar)
    lo = np.full(npar, -1.0)
    hi = np.full(npar, 1.0)
    model.setLimits(lo, hi)
    keep = None
    if npar > 2 and rng.random() < 0.4:
        # a kept value is kept, also beyond the limits
        keep = {int(rng.integers(0, npar)): float(rng.choice([0.25, 1.75, -1.5]))}
    always = keep is not None and rng.random() < 0.5
    given = None if keep is None else dict(keep)
    tag = fname + ("/keep" if keep else "")
    with mon.guarded("error:limits:" + tag, model=name):
        fitter = FITTERS[fname](x, model, keep=given) if always else FITTERS[fname](x, model)
        for step in range(2):
            if step:
                p0 = rng.normal(0, 1.5, npar)
            y = off + D @ p0 + rng.normal(0, 0.1, n)
            w = rng.uniform(0.5, 2, n) if rng.random() < 0.5 else None
            first, free = fits.lstsq(D, y, fits.combined(n, w, None), off, keep)
            k2 = dict(keep or {})
            for k in free:
                if first[k] < lo[k]:
                    k2[k] = lo[k]
                elif first[k] > hi[k]:
                    k2[k] = hi[k]
            want, free = fits.lstsq(D, y, fits.combined(n, w, None), off, k2)
            got = np.asarray(fitter.limitsFit(y, weights=w, keep=None if always else given), dtype=float)
            mon.expect(given == keep, "limitsFit-keep:" + tag, "the dictionary of kept parameters became %s" % given, keep=keep)
            mon.close(got, want, "limitsFit:" + tag, rtol=0, atol=1e-7 * (1 + np.abs(y).max()), model=name, first=first, keep=k2,
                      step=step)
            mon.count("limited fits")
            mon.state("limits", fname, name, len(k2), step)


def null(mon, rng, idx):
    """ a model without parameters is its own optimum """
    fname = ["Fitter", "QRFitter"][idx % 2]
    n = int(rng.integers(4, 20))
    x = rng.uniform(-1, 1, n)
    v = float(rng.normal())
    model = bf.ConstantModel(values=v) if idx % 4 < 2 else bf.ConstantModel(fixedModel=bf.PolynomialModel(1), values=[v, 0.5])
    want = v * np.ones(n) if idx % 4 < 2 else v + 0.5 * x
    y = rng.normal(0, 1, n)
    w = rng.uniform(0.5, 2, n) if rng.random() < 0.6 else None
    with mon.guarded("error:null:" + fname):
        fitter = FITTERS[fname](x, model)
        fitter.fit(y, weights=w)
        mon.close(fitter.yfit, want, "null-yfit:" + fname)
        mon.close(fitter.chisq, np.sum((1 if w is None else w) * (y - want) ** 2), "null-chisq:" + fname, rtol=1e-10)
        mon.count("null")


CASES = [Case("history", history, quick=320, thorough=8000, chunk=20),
         Case("limited", limited, quick=60, thorough=1500, chunk=20),
         Case("null", null, quick=16, thorough=64, chunk=16)]
