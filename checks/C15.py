"""C15  Robust fitting is the fixed point of kernel reweighting."""
import warnings
import numpy as np
import BayesicFitting as bf
import fits
import kern
from harness import Case

RULE = "distinct = (kernel, sidedness, fitter, model, input weights, kept parameters, number of outliers)"
ASSUMPTIONS = ["deviants are ( data - model ) / ( domain * scale ), with the scale of the (weighted) fit",
               "the default domain is 6 / fwhm of the kernel",
               "the robust iteration ends when chi-squared does not change more than its tolerance; a tight tolerance is asked for",
               "redescending kernels can have several fixed points; only the one reached is judged"]
REQUIRE = {"fits": 150, "onesided": 30, "weighted": 50, "kept": 25, "outliers down": 30, "clean": 20}

KERNELS = ["Biweight", "CosSquare", "Cosine", "Gauss", "Huber", "Lorentz", "Parabola", "Triangle", "Tricube", "Triweight", "Uniform"]
FITTERS = {"Fitter": bf.Fitter, "QRFitter": bf.QRFitter, "LM": bf.LevenbergMarquardtFitter, "Curve": bf.CurveFitter}


def robust(mon, rng, idx):
    kname = KERNELS[idx % len(KERNELS)]
    kdef = kern.DEF[kname][0]
    fname = list(FITTERS)[int(rng.choice([0, 0, 1, 2, 3]))]
    name, make, x = fits.linear_model(rng)
    D, off = fits.design(make(), x)
    n, npar = D.shape
    if npar == 0 or n < 4 * npar or np.linalg.cond(D) > 100:
        return
    truth = rng.normal(0, 1.5, npar)
    nout = int(rng.integers(0, max(1, n // 8)))
    y = off + D @ truth + rng.normal(0, 0.2, n)
    out = rng.choice(n, nout, replace=False)
    if nout:
        y[out] += rng.choice([-1, 1], nout) * rng.uniform(2, 8, nout)
    if rng.random() < 0.1:
        y = np.round(y * 10)
    w = rng.uniform(0.3, 2.0, n) if rng.random() < 0.4 else None
    keep = {int(rng.integers(0, npar)): 0.0} if npar > 1 and rng.random() < 0.25 else None
    if keep:
        keep = {k: float(truth[k]) for k in keep}
    side = [None, None, "positive", "negative", "p", "N"][int(rng.integers(0, 6))]
    kernel = getattr(bf, kname)
    form = int(rng.integers(0, 3))
    how = "%s/%s%s%s%s" % (kname, fname, "/w" if w is not None else "", "/" + side[0].lower() if side else "", "/keep" if keep else "")
    model = make()
    model.parameters = truth + 0.1
    ftol = {"tolerance": 1e-12} if fname == "LM" else {}
    with warnings.catch_warnings(), mon.guarded("error:" + fname, model=name, kernel=kname):
        warnings.simplefilter("ignore")
        inner = FITTERS[fname](x, model, **ftol)
        ckw, fkw = {"tolerance": 1e-13, "maxIter": 400}, {}
        dom = None
        if rng.random() < 0.5 or form == 2:
            dom = float(rng.uniform(3, 7))
            ckw["domain"] = dom
        if side is not None:
            (ckw if rng.random() < 0.5 else fkw)["onesided"] = side
        kobj = kernel if form == 0 else kernel()
        if form == 2:
            kobj = kernel().result           # a callable
        rob = bf.RobustShell(inner, kernel=kobj, **ckw)
        if dom is None:
            dom = 6.0 / kernel().fwhm
        if w is not None:
            fkw["weights"] = w.copy()
        if keep is not None:
            fkw["keep"] = dict(keep)
        y0 = y.copy()
        try:
            got = np.asarray(rob.fit(y, **fkw), dtype=float)
        except (RuntimeError, np.linalg.LinAlgError):
            mon.count("all weights gone")
            return
        mon.close(y, y0, "data-untouched", rtol=0)
        if w is not None:
            mon.close(fkw["weights"], w, "weights-untouched", rtol=0)
        win = np.ones(n) if w is None else w
        fw = np.array(rob.weights, dtype=float)
        # the parameters are the weighted fit with the final weights
        want, free = fits.lstsq(D, y, fw, off, keep)
        c = np.linalg.cond(D[:, free] * np.sqrt(fw)[:, None]) if free else 1
        if c > 1e4:
            return
        loose = fname in ("LM", "Curve")
        mon.close(got, want, "fit-with-final-weights:" + how, rtol=0, atol=(2e-4 if loose else 1e-8) * c * (1 + np.abs(y).max()), model=name)
        mon.close(model.parameters, got, "model-parameters:" + how, rtol=0)
        # and the weights are those of the deviants of this solution
        r = y - off - D @ got
        sumw = float(np.sum(fw))
        if sumw - len(free) <= 0.5 or np.sum(fw > 1e-3 * fw.max()) < npar + 3:
            mon.count("hardly any weight left")
            return
        scale = np.sqrt(np.sum(fw * r * r) / (sumw - len(free)))
        if scale < 1e-6:
            return
        mon.close(inner.scale, scale, "scale:" + how, rtol=1e-5 if not loose else 1e-3, model=name)

        def weights(r, scale):
            d = r / (scale * dom)
            kw = kdef(d)
            if side is not None:
                kw = np.where(d < 0, 1.0, kw) if side[0].lower() == "p" else np.where(d > 0, 1.0, kw)
            return win * kw
        nw = weights(r, scale)
        converged = rob.iter < 400
        mon.count("not converged", int(not converged))
        if not converged:
            # the same iteration, done here
            q, last, steps = fits.lstsq(D, y, win, off, keep)[0], None, 0
            fq = win
            while steps < 100:
                rq = y - off - D @ q
                cq = float(np.sum(fq * rq * rq))
                if last is not None and abs(cq - last) < 1e-14 * max(cq, 1):
                    break
                last = cq
                fq = weights(rq, np.sqrt(cq / (np.sum(fq) - len(free))))
                q = fits.lstsq(D, y, fq, off, keep)[0]
                steps += 1
            mon.expect(steps >= 100, "no-end:" + how, "%d steps were enough, not %d" % (steps, rob.iter), model=name)
        if converged and (not loose or fname == "LM"):
            if kname == "Uniform":
                # discontinuous : only points near the edge may differ
                d = np.abs(np.abs(r / (scale * dom)) - 1) > 0.02
                mon.close(fw[d], nw[d], "final-weights:" + how, rtol=1e-6, atol=1e-9, model=name)
            else:
                mon.close(fw, nw, "final-weights:" + how, rtol=0, atol=0.02 * np.max(win), model=name, scale=scale, domain=dom)
                p2, _ = fits.lstsq(D, y, nw, off, keep)
                A = D[:, free] * np.sqrt(nw)[:, None]
                sd = scale * np.sqrt(np.diag(np.linalg.inv(A.T @ A))) if free else np.zeros(0)
                mon.expect(np.all(np.abs(p2 - got)[free] <= 0.05 * sd), "fixed-point:" + how, model=name, now=got, next=p2, stdevs=sd)
        mon.expect(np.all(fw >= -1e-12) and np.all(fw <= win * (1 + 1e-9)), "weights-range:" + how, weights=fw)
        if side is not None and converged:
            # the other side is not touched
            big = (r < -0.05 * scale) if side[0].lower() == "p" else (r > 0.05 * scale)
            mon.close(fw[big], win[big], "other-side:" + how, rtol=1e-12, model=name)
            mon.count("onesided")
        if keep:
            for k, v in keep.items():
                mon.expect(got[k] == v, "kept:" + how)
            mon.count("kept")
        # things derived from the shell are those of the weighted fit
        mon.close(rob.chisq, np.sum(fw * r * r), "shell-chisq:" + how, rtol=1e-6, atol=1e-12)
        sds = np.zeros(npar)
        A = D[:, free] * np.sqrt(fw)[:, None]
        sds[free] = scale * np.sqrt(np.diag(np.linalg.inv(A.T @ A)))
        mon.close(rob.stdevs, sds, "shell-stdevs:" + how, rtol=1e-3 if loose else 1e-5, atol=1e-12, model=name)
        mon.close(rob.scale, scale, "shell-scale:" + how, rtol=1e-3 if loose else 1e-5, model=name)
        # order of size
        if side is None and converged and nout and kname != "Uniform":
            big = np.abs(r) > 2 * scale
            small = np.abs(r) < 0.5 * scale
            if np.any(big) and np.any(small):
                rel = fw / win
                mon.expect(rel[big].max() <= rel[small].min() + 1e-9, "outliers-have-less-weight:" + how)
                mon.count("outliers down")
        mon.count("fits")
        mon.count("weighted", int(w is not None))
        mon.state(how, name, nout)
        mon.sample("%s of %s with %d outliers" % (how, name, nout), iterations=rob.iter, scale=scale)


def clean(mon, rng, idx):
    """ without outliers, robust is (nearly) the plain fit; with a few big ones it is nearly the plain fit without these """
    kname = KERNELS[idx % len(KERNELS)]
    n = 120
    x = np.linspace(-1, 1, n)
    deg = int(rng.integers(0, 4))
    truth = rng.normal(0, 1, deg + 1)
    y = np.asarray(bf.PolynomialModel(deg).result(x, truth)) + rng.uniform(-0.3, 0.3, n)
    with mon.guarded("error:clean:" + kname):
        m = bf.PolynomialModel(deg)
        f = bf.Fitter(x, m)
        plain = np.array(f.fit(y))
        sd = np.array(f.stdevs)
        m2 = bf.PolynomialModel(deg)
        rob = bf.RobustShell(bf.Fitter(x, m2), kernel=getattr(bf, kname))
        got = np.array(rob.fit(y))
        mon.expect(np.all(np.abs(got - plain) < 1.0 * sd), "clean:" + kname, plain=plain, robust=got, stdevs=sd)
        if kname in ("Biweight", "Tricube", "Triweight", "CosSquare", "Gauss", "Huber", "Lorentz"):
            out = np.arange(5, n, 17)
            y2 = y.copy()
            y2[out] += rng.choice([-1, 1], len(out)) * 5
            got = np.array(bf.RobustShell(bf.Fitter(x, bf.PolynomialModel(deg)), kernel=getattr(bf, kname)).fit(y2))
            bad = np.array(bf.Fitter(x, bf.PolynomialModel(deg)).fit(y2))
            ok = np.linalg.norm((got - plain) / sd) < 0.7 * np.linalg.norm((bad - plain) / sd) + 1.5 * np.sqrt(deg + 1)
            mon.expect(ok, "outliers-rejected:" + kname, plain=plain, robust=got, with_outliers=bad, stdevs=sd)
        mon.count("clean")
        mon.state("clean", kname, deg)


CASES = [Case("robust", robust, quick=330, thorough=6600, chunk=11),
         Case("clean", clean, quick=33, thorough=330, chunk=11)]
