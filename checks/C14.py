"""C14  The evidence reported by a fitter is the Laplace/Gaussian evidence."""
import math
import warnings
import numpy as np
from scipy import integrate, special
import BayesicFitting as bf
import fits
from harness import Case

RULE = "distinct = (fitter, model, weights, accuracy, kept parameters, source of limits, noise limits or fixed scale, position in history)"
ASSUMPTIONS = ["the limits enclose the posterior widely, so that the integral over the parameters is the full Gaussian one",
               "a weight is the number of times a point is present; its likelihood is taken to that power",
               "the Gaussian approximation in the log of the noise scale is accurate to better than 0.5 / dof",
               "without a fixed scale or noise limits the accuracies (or 1) are the noise"]
REQUIRE = {"evidences": 300, "fixed scale": 100, "noise limits": 100, "kept": 60, "priors": 80, "compound priors": 10, "grids": 30}

FITTERS = [("Fitter", bf.Fitter, 1e-9), ("LM", bf.LevenbergMarquardtFitter, 2e-2), ("QRFitter", bf.QRFitter, 1e-9),
           ("Curve", bf.CurveFitter, 1e-4), ("Amoeba", bf.AmoebaFitter, 0.1)]


def evidence(mon, rng, idx):
    fname, ctor, tol = FITTERS[idx % len(FITTERS)]
    name, make, x = fits.linear_model(rng)
    npar = make().npchain
    if npar < (2 if fname == "Amoeba" else 1) or np.linalg.cond(fits.design(make(), x)[0]) > 100 or (fname == "Amoeba" and npar > 4):
        return
    D, off = fits.design(make(), x)
    n = len(x)
    truth = rng.normal(0, 1, npar)
    model = make()
    lo = -rng.uniform(40, 200, npar)
    hi = rng.uniform(40, 200, npar)
    source = ["argument", "scalar", "short", "priors"][int(rng.integers(0, 4))]
    if fname == "Curve" and source == "priors":
        source = "argument"
    limits = None
    if source == "argument":
        limits = [lo, hi] if rng.random() < 0.5 else [lo.tolist(), hi.tolist()]
    elif source == "scalar":
        limits = [-60.0, 70.0]
        lo[:], hi[:] = limits[0], limits[1]
    elif source == "short":
        k = int(rng.integers(1, npar + 1))
        limits = [lo[:k].copy(), hi[:k].copy()]
        lo[k:], hi[k:] = lo[k - 1], hi[k - 1]
    else:
        # per model in the chain, the last one is repeated
        mdl, k0 = model, 0
        ncomp = 0
        while mdl is not None:
            nb = mdl.npbase
            if nb > 0:
                m = int(rng.integers(1, nb + 1))
                for k in range(m):
                    mdl_prior = bf.UniformPrior(limits=[lo[k0 + k], hi[k0 + k]])
                    model.setPrior(k0 + k, mdl_prior)
                lo[k0 + m:k0 + nb], hi[k0 + m:k0 + nb] = lo[k0 + m - 1], hi[k0 + m - 1]
                ncomp += 1
            k0 += nb
            mdl = mdl._next
        mon.count("compound priors", int(ncomp > 1))
    ranges = hi - lo
    fixed = None
    ckw = {}
    if rng.random() < 0.5:
        fixed = float(np.exp(rng.uniform(-1.5, 1)))
        ckw["scale" if fname == "Amoeba" and rng.random() < 0.5 else "fixedScale"] = fixed
    always = None
    if npar > 2 and rng.random() < 0.25:
        always = {int(rng.integers(0, npar)): float(rng.normal())}
        ckw["keep"] = dict(always)
    model.parameters = truth.copy()
    with warnings.catch_warnings(), mon.guarded("error:" + fname, model=name, source=source):
        warnings.simplefilter("ignore")
        if fname == "QRFitter":
            ckw.pop("fixedScale", None)
        fitter = ctor(x, model, **ckw)
        fitter.fixedScale = fixed
        for step in range(int(rng.integers(1, 4))):
            y = off + D @ truth + rng.normal(0, 0.3, n)
            w, acc = fits.values(rng, n, "weights"), fits.values(rng, n, "accuracy")
            keep = None
            if npar > 2 and rng.random() < 0.25:
                keep = {int(rng.integers(0, npar)): float(rng.normal())}
            kk = keep if keep is not None else (always or {})
            free = [k for k in range(npar) if k not in kk]
            sumw = n if w is None else float(np.sum(w))
            d = sumw - len(free)
            if d < 6 or (fname == "Amoeba" and len(free) < 2):
                continue
            kw = {}
            if w is not None:
                kw["weights"] = w
            if acc is not None:
                kw["accuracy"] = acc
            if keep is not None:
                kw["keep"] = dict(keep)
            if fname == "Amoeba":
                kw.update(maxiter=5000, size=0.3)
            p = np.asarray(fitter.fit(y, **kw), dtype=float)
            p0 = np.zeros(npar)
            for k, v in kk.items():
                p0[k] = v
            r0 = y - off - D @ p0
            how = "%s%s%s%s/%s" % (fname, "/w" if w is not None else "", "/acc" if acc is not None else "", "/keep" if kk else "",
                                   source)
            if len(kk) and source in ("argument", "short") and len(limits[0]) == len(free):
                continue                # limits of all parameters or only of the fitted ones
            s = 1.0 if fixed is None else fixed
            lkw = {} if limits is None else {"limits": limits}
            noise = [float(np.exp(rng.uniform(-9, -7))), float(np.exp(rng.uniform(6, 8)))]
            todo = ["fixed", "noise"]
            rng.shuffle(todo)
            for t in todo:
                if t == "fixed":
                    want, rest = fits.fixed_logz(D, r0, free, w, acc, s, ranges)
                    got = fitter.getLogZ(**lkw)
                    at = tol * (1 + (rest if fname in ("LM", "Amoeba") else 0)) if tol > 1e-6 else 1e-8 * (1 + abs(want))
                    if fname == "LM":
                        at = 1e-4 * rest + 1e-3      # its tolerance on chisq
                    if fname == "Amoeba":
                        at = 0.05 + 1e-3 * rest
                    mon.close(got, want, "logZ-fixed:" + how, rtol=0, atol=at, model=name, step=step, scale=fixed, keep=kk)
                    lz = got
                    mon.count("fixed scale")
                else:
                    got = fitter.getLogZ(noiseLimits=noise, **lkw)
                    # marginal over the parameters at scale 1; the dependence on the scale is analytic
                    z1, rest = fits.fixed_logz(D, r0, free, w, acc, 1.0, ranges)
                    # int ds/s s^-d exp( -rest/2s^2 )
                    want = z1 + 0.5 * rest + math.log(0.5) + special.gammaln(d / 2) + 0.5 * d * math.log(2 / rest)
                    want -= math.log(math.log(noise[1] / noise[0]))
                    at = 0.5 / d + 1e-3
                    if fname in ("LM", "Amoeba"):
                        at += 1e-2 * d
                    mon.close(got, want, "logZ-noise:" + how, rtol=0, atol=at, model=name, step=step, keep=kk)
                    lz = got
                    mon.count("noise limits")
                    if rng.random() < 0.1:
                        # the analytic integral over the scale, integrated numerically
                        sb = math.sqrt(rest / d)
                        top = -d * math.log(sb) - 0.5 * d
                        ig = integrate.quad(lambda ls: math.exp(-d * ls - 0.5 * rest * math.exp(-2 * ls) - top),
                                            math.log(noise[0]), math.log(noise[1]), points=[math.log(sb)], limit=300)[0]
                        num = z1 + 0.5 * rest + top + math.log(ig) - math.log(math.log(noise[1] / noise[0]))
                        assert abs(num - want) < 1e-4, (num, want)
                        mon.count("grids")
                mon.close(fitter.logOccam + fitter.logLikelihood, lz, "occam+likelihood:" + how, rtol=1e-9, atol=1e-9)
                kw2 = {"noiseLimits": noise} if t == "noise" else {}
                mon.close(fitter.getEvidence(**kw2, **lkw), lz / math.log(10), "evidence-10log:" + how, rtol=1e-9, atol=1e-10)
                mon.close(fitter.getLogZ(**kw2, **lkw), lz, "repeatable:" + how, rtol=1e-10, atol=1e-10)
                # the likelihood at the solution, in the noise that was used
                sig = (s if t == "fixed" else fitter.scale) * (1.0 if acc is None else acc) * np.ones(n)
                r = y - off - D @ p
                ll = float(np.sum((1 if w is None else w) * (-0.5 * np.log(2 * np.pi * sig ** 2) - 0.5 * (r / sig) ** 2)))
                mon.close(fitter.logLikelihood, ll, "logLikelihood:" + how, rtol=1e-7, atol=1e-7, model=name, kind=t)
            if limits is None:
                fitter.getLogZ()
                mon.close(fitter.logZ, fitter.getLogZ(), "logZ-attribute", rtol=1e-10)
                mon.close(fitter.evidence, fitter.getLogZ() / math.log(10), "evidence-attribute", rtol=1e-10)
            if not np.any(np.isnan(p)):
                mon.count("evidences")
            mon.count("kept", int(bool(kk)))
            mon.count("priors", int(source == "priors"))
            mon.state(how, name, fixed is None, step)
        mon.sample("%s of %s, limits from %s, fixed scale %s" % (fname, name, source, fixed))


def gridded(mon, rng, idx):
    """ one and two parameters (and the scale), on a grid """
    npar = 1 + idx % 2
    n = int(rng.integers(8, 20))
    x = np.sort(rng.uniform(-1, 1, n))
    m = bf.PolynomialModel(npar - 1)
    truth = rng.uniform(-0.5, 0.5, npar)
    s = float(rng.uniform(0.2, 0.4))
    y = np.asarray(m.result(x, truth)) + s * rng.normal(0, 1, n)
    w = rng.integers(1, 3, n) if rng.random() < 0.5 else None
    acc = rng.uniform(0.5, 1.5, n) if rng.random() < 0.5 else None
    lo, hi = -4.0, 5.0
    f = [bf.Fitter, bf.QRFitter][idx // 2 % 2]
    f = f(x, m, fixedScale=s) if f is bf.Fitter else f(x, m)
    if not isinstance(f, bf.Fitter) or f.fixedScale is None:
        f.fixedScale = s
    f.fit(y, weights=w, accuracy=acc)
    g = np.linspace(lo, hi, 2001 if npar == 1 else 901)
    sig = s * (np.ones(n) if acc is None else acc)
    ww = np.ones(n) if w is None else w
    if npar == 1:
        P = g[:, None] * np.ones(n)
    else:
        P = (g[:, None, None] + g[None, :, None] * x).reshape(-1, n)
    ll = np.sum(ww * (-0.5 * np.log(2 * np.pi * sig ** 2) - 0.5 * ((y - P) / sig) ** 2), axis=1)
    want = float(special.logsumexp(ll) + npar * math.log((g[1] - g[0]) / (hi - lo)))
    how = "%s/%d%s%s" % (f, npar, "/w" if w is not None else "", "/acc" if acc is not None else "")
    with mon.guarded("error:grid"):
        mon.close(f.getLogZ(limits=[lo, hi]), want, "logZ-grid:" + how, rtol=0, atol=2e-3)
        mon.close(f.getEvidence(limits=[lo, hi]), want / math.log(10), "evidence-grid:" + how, rtol=0, atol=1e-3)
    mon.count("grids")
    mon.state("grid", how)


def refused(mon, rng, idx):
    """ what is documented to raise """
    n = int(rng.integers(4, 9))
    x = np.linspace(0, 1, n)
    f = bf.Fitter(x, bf.PolynomialModel(1))
    f.fit(rng.normal(0, 1, n))
    try:
        f.getEvidence()
        mon.violate("no-limits-accepted")
    except ValueError:
        mon.expect(True, "no-limits-accepted")
    f = bf.Fitter(x, bf.PolynomialModel(1))
    f.fit(rng.normal(0, 1, n), weights=np.full(n, 1.9 / n))
    try:
        f.getEvidence(limits=[-1, 1])
        mon.violate("no-degrees-of-freedom-accepted")
    except RuntimeError:
        mon.expect(True, "no-degrees-of-freedom-accepted")
    mon.count("refused")


CASES = [Case("evidence", evidence, quick=600, thorough=9000, chunk=20),
         Case("gridded", gridded, quick=24, thorough=200, chunk=4),
         Case("refused", refused, quick=4, thorough=8, chunk=4)]
