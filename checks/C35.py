"""C35  In an EvidenceProblem the likelihood of a model is its evidence."""
import math
import warnings
import numpy as np
from scipy import special
import BayesicFitting as bf
import fits
import zoo
from harness import Case

RULE = "distinct = (structure, number of components, arbiter, weights, fixed scale or noise limits, first or later call)"
ASSUMPTIONS = ["the models are linear in their parameters; the limits enclose the posterior widely",
               "the Gaussian approximation in the log of the noise scale is accurate to better than 0.5 / dof",
               "an evidence by nested sampling is within 6 standard deviations, sqrt( H / N ), of the exact one"]
REQUIRE = {"likelihoods": 300, "noise limits": 60, "weighted": 80, "repeats": 60, "copies": 40, "nested": 6, "runs": 4, "walkers": 60,
           "instances": 30}

ARBITERS = [None, "fitter", "levenberg", "curve", "amoeba", "Fitter", "instance-fitter", "instance-qr", "instance-lm"]


def structure(rng, kind, ncomp, compound=True):
    """ a model with a variable structure; linear in its parameters """
    lo, hi = -float(rng.uniform(60, 150)), float(rng.uniform(60, 150))
    if kind == "polynomial":
        m = bf.PolynomialDynamicModel(ncomp)
    elif kind == "harmonic":
        m = bf.HarmonicDynamicModel(ncomp, period=1.0)
    elif kind == "splines":
        kn = np.linspace(0, 1, ncomp + 2)
        kn[1:-1] += rng.uniform(-0.25, 0.25, ncomp) / (ncomp + 1)
        m = bf.SplinesDynamicModel(knots=kn, order=int(rng.integers(1, 4)), dynamic=bool(rng.random() < 0.6))
    elif kind == "tree":
        m = bf.DecisionTreeModel(ndim=1, depth=1, kdim=[0], split=[float(rng.uniform(0.25, 0.75))])
    else:
        # lines y = a x, all of them ; only one can be there
        im = bf.PowerModel(1)
        im.setLimits([lo], [hi])
        m = bf.RepeatingModel(1, im)
    if kind != "repeat":
        m.setLimits([lo], [hi])
    if compound and kind == "harmonic" and rng.random() < 0.6:
        s = bf.PolynomialModel(int(rng.integers(0, 2)))
        s.setLimits([lo], [hi])
        if rng.random() < 0.5:
            m += s
        else:
            s += m
            m = s
    return m, lo, hi


def noise_logz(D, r0, w, ranges, noise):
    k = D.shape[1]
    z1, rest = fits.fixed_logz(D, r0, list(range(k)), w, None, 1.0, ranges)
    d = (len(r0) if w is None else float(np.sum(w))) - k
    z = z1 + 0.5 * rest + math.log(0.5) + special.gammaln(d / 2) + 0.5 * d * math.log(2 / rest)
    return z - math.log(math.log(noise[1] / noise[0])), rest, d


def make_arbiter(name, x, model, scale):
    if name is None or not name.startswith("instance"):
        return name
    k = {"fitter": bf.Fitter, "qr": bf.QRFitter, "lm": bf.LevenbergMarquardtFitter}[name.split("-")[1]]
    f = k(x, model)
    f.fixedScale = scale
    return f


def reference(model, x, y, w, lo, hi, scale, noise):
    """ (log evidence, tolerances of it, optimal parameters, noise scale there) """
    D, off = fits.design(model, x)
    K = D.shape[1]
    rg = np.full(K, hi - lo)
    sw = np.ones(len(x)) if w is None else np.sqrt(w)
    p = np.linalg.lstsq(D * sw[:, None], (y - off) * sw, rcond=None)[0]
    if noise is None:
        z, rest = fits.fixed_logz(D, y - off, list(range(K)), w, None, scale, rg)
        return z, 1e-7 * (1 + abs(z)), p, scale, rest
    z, rest, d = noise_logz(D, y - off, w, rg, noise)
    return z, 0.5 / d + 1e-3, p, math.sqrt(rest / d), rest


def data(rng, n):
    x = np.sort(rng.uniform(0, 1, n))
    x[0], x[-1] = 0, 1
    y = rng.normal(0, 2) + rng.normal(0, 2) * x + float(rng.uniform(0, 1)) * np.sin(6 * x) + 0.3 * rng.normal(size=n)
    w = None
    if rng.random() < 0.5:
        w = rng.uniform(0.3, 2.5, n) if rng.random() < 0.5 else rng.integers(1, 4, n).astype(float)
    return x, y, w


def optimum(mon, how, D, sw, q, p, rest, iterative):
    """ the least squares solution, up to the tolerance in chisq of an iterative fitter """
    d = (D @ (q - p)) * sw
    excess = float(d @ d)
    mon.expect(excess <= (2e-2 * rest + 1e-3 if iterative else 1e-12 * (rest + float(np.sum((D @ p * sw) ** 2)))), "optimum:" + how,
               "%s instead of %s; chisq %g is %g too large" % (q, p, rest, excess))


KINDS = ["polynomial", "harmonic", "splines", "tree", "repeat"]


def likelihood(mon, rng, idx):
    aname = ARBITERS[idx % len(ARBITERS)]
    kind = KINDS[int(rng.integers(len(KINDS)))]
    n = int(rng.integers(16, 40))
    ncomp = int(rng.integers(1, 4))
    model, lo, hi = structure(rng, kind, ncomp)
    if aname == "amoeba" and not 2 <= model.npars <= 3:
        model, lo, hi = structure(rng, "polynomial", 1)
        kind = "polynomial"
    scale = float(np.exp(rng.uniform(-1.5, 0.5)))
    noise = None
    if rng.random() < 0.4:
        noise = [float(np.exp(rng.uniform(-9, -7))), float(np.exp(rng.uniform(6, 8)))]
    x, y, w = data(rng, n)
    arb = make_arbiter(aname, x, model, scale if noise is None else None)
    dist = bf.ModelDistribution(arbiter=arb, scale=scale, limits=noise)
    mon.expect(dist.acceptWeight(), "weights-accepted")
    for t in range(int(rng.integers(1, 5))):
        if t:
            if rng.random() < 0.5:
                x, y, w = (x,) + data(rng, n)[1:] if aname and aname.startswith("inst") else data(rng, n)
            if rng.random() < 0.5 and kind != "repeat":
                # another structure, in a copy as the walkers have
                model = model.copy()
                part = model
                off = 0
                while not hasattr(part, "grow"):
                    off += part.npbase
                    part = part._next
                if part.ncomp < 5 and aname != "amoeba" and part.dynamic if hasattr(part, "dynamic") else part.ncomp < 4:
                    part.grow(offset=off, rng=np.random.RandomState(int(rng.integers(1 << 30))))
            if rng.random() < 0.4:
                dist = dist.copy()
                mon.count("copies")
        D, off0 = fits.design(model, x)
        sw = np.ones(n) if w is None else np.sqrt(w)
        if np.linalg.cond(D * sw[:, None]) > 300:
            continue
        how = "%s/%s%s%s" % (aname, kind, "/w" if w is not None else "", "/noise" if noise else "")
        with warnings.catch_warnings(), mon.guarded("error:" + how, step=t):
            warnings.simplefilter("ignore")
            ep = bf.EvidenceProblem(model, x, y, weights=w)
            K = model.npars
            allp = np.append(rng.uniform(lo, hi, K), rng.uniform(0.1, 2))
            if aname == "amoeba":
                model.parameters = np.linalg.lstsq(D, y - off0, rcond=None)[0] + 0.1
            got = dist.logLikelihood(ep, allp)
            z, at, p, s, rest = reference(model, x, y, w, lo, hi, scale, noise)
            iterative = aname in ("levenberg", "amoeba", "curve", "instance-lm") or (aname is None and kind == "repeat")
            if iterative:
                at = at + 1e-2 + (2e-2 * n if noise is not None else 1e-3 * rest / (s * s))
            mon.close(got, z, "logL:" + how, rtol=0, atol=at, step=t, components=K, scale=scale)
            # and the parameters that go with it : how far from the optimum in chisq
            optimum(mon, how, D, sw, allp[:K], p, rest, iterative)
            mon.close(allp[K], s, "scale:" + how, rtol=2e-2 if iterative else 1e-7, step=t)
            again = dist.logLikelihood(ep, np.append(rng.uniform(lo, hi, K), 0.5))
            mon.close(again, z, "logL-again:" + how, rtol=0, atol=at, step=t)
            mon.count("repeats")
            mon.count("likelihoods", 2)
            mon.count("noise limits", int(noise is not None))
            mon.count("weighted", int(w is not None))
            mon.count("instances", int(bool(aname) and aname.startswith("inst")))
            mon.state(kind, K, aname, w is not None, noise is not None, min(t, 2))
    mon.sample("evidence as likelihood", arbiter=str(aname), kind=kind, scale=scale, noise=noise)


def nested(mon, rng, idx):
    """ the evidence calculated by nested sampling """
    kind = KINDS[idx % len(KINDS)]
    n = int(rng.integers(10, 20))
    if kind == "splines":
        model, lo, hi = bf.SplinesDynamicModel(knots=[0, 1.0], order=1), -20.0, 25.0
        model.setLimits([lo], [hi])
    elif kind in ("polynomial", "harmonic"):
        model, lo, hi = structure(rng, kind, 1, compound=False)
    else:
        model, lo, hi = structure(rng, kind, 1)
    x, y, w = data(rng, n)
    scale = float(np.exp(rng.uniform(-1.2, 0)))
    noise = None
    if rng.random() < 0.4:
        noise = [0.01, 10.0]
    N = int(rng.integers(40, 80))
    kw = {"ensemble": N, "seed": int(rng.integers(1 << 20)), "verbose": 0}
    if rng.random() < 0.5:
        kw["engines"] = [str(v) for v in rng.permutation(["chord", "gibbs", "step"])]
    given = dict(kw)
    dist = bf.ModelDistribution(arbiter="NestedSampler", scale=scale, limits=noise, **kw)
    if rng.random() < 0.5:
        dist = dist.copy()
        mon.count("copies")
    how = "nested/%s%s%s" % (kind, "/w" if w is not None else "", "/noise" if noise else "")
    with warnings.catch_warnings(), mon.guarded("error:" + how):
        warnings.simplefilter("ignore")
        ep = bf.EvidenceProblem(model, x, y, weights=w)
        K = model.npars
        allp = np.append(rng.uniform(lo, hi, K), 0.7)
        before = (K, str(model), model.isDynamic(), model.isModifiable())
        got = dist.logLikelihood(ep, allp)
        mon.expect((model.npars, str(model), model.isDynamic(), model.isModifiable()) == before, "structure-kept:" + how)
        z, at, p, s, rest = reference(model, x, y, w, lo, hi, scale, noise)
        D, off = fits.design(model, x)
        sw = np.ones(n) if w is None else np.sqrt(w)
        cov = np.linalg.inv((D * (sw ** 2)[:, None]).T @ D) * s * s
        # the information : log of prior volume over posterior volume
        H = K * math.log(hi - lo) - 0.5 * (K * math.log(2 * math.pi * math.e) + np.linalg.slogdet(cov)[1])
        H += math.log(math.log(noise[1] / noise[0])) + 0.5 * math.log(n) if noise else 0
        sd = math.sqrt(max(H, 1) / N)
        mon.close(got, z, "logL:" + how, rtol=0, atol=6 * sd + at + 0.2, information=H, ensemble=N, scale=scale)
        err = np.sqrt(np.diag(cov))
        mon.expect(bool(np.all(np.abs(allp[:K] - p) <= 2 * err)), "optimum:" + how, "%s instead of %s, error %s" % (allp[:K], p, err))
        if noise is None:
            mon.close(allp[K], scale, "scale:" + how)
        else:
            mon.expect(0.5 * s < allp[K] < 2 * s, "scale:" + how, "%s instead of %s" % (allp[K], s))
        mon.expect(kw == given, "arguments-kept:" + how)
        mon.count("nested")
        mon.count("weighted", int(w is not None))
        mon.state("nested", kind, w is not None, noise is not None)


def run(mon, rng, idx):
    """ nested sampling over structures """
    kind = ["polynomial", "harmonic", "splines", "tree", "splines"][idx % 5]
    n = int(rng.integers(14, 30)) if kind != "polynomial" or rng.random() < 0.7 else int(rng.integers(5, 9))
    model, lo, hi = structure(rng, kind, 1 if kind != "splines" else int(rng.integers(1, 3)))
    x, y, w = data(rng, n)
    scale = float(np.exp(rng.uniform(-1.2, 0)))
    noise = [1e-4, 1e3] if rng.random() < 0.3 else None
    aname = ["None", "fitter", "levenberg", "instance-fitter"][int(rng.integers(4))]
    aname = None if aname == "None" else aname
    how = "run/%s/%s%s%s" % (aname, kind, "/w" if w is not None else "", "/noise" if noise else "")
    with warnings.catch_warnings(), mon.guarded("error:" + how, ndata=n):
        warnings.simplefilter("ignore")
        arb = make_arbiter(aname, x, model, scale if noise is None else None)
        ep = bf.EvidenceProblem(model, x, y, weights=w)
        mon.expect(ep.myDistribution() == "model", "distribution:" + how)
        dist = bf.ModelDistribution(arbiter=arb, scale=scale, limits=noise)
        ns = bf.NestedSampler(problem=ep, distribution=dist, ensemble=10, verbose=0, seed=int(rng.integers(1 << 20)))
        ns.minimumIterations = 30
        ns.maxIterations = 60
        ns.sample()
        last = -math.inf
        comps = set()
        for sm in ns.samples:
            m = sm.model
            K = m.npars
            comps.add(K)
            mon.expect(sm.logL >= last - 1e-6 * abs(last), "order:" + how, "%s after %s" % (sm.logL, last))
            last = sm.logL
            D, off = fits.design(m, x)
            sw = np.ones(n) if w is None else np.sqrt(w)
            N = n if w is None else float(np.sum(w))
            if K >= N:
                mon.expect(sm.logL < -1e300, "determined:" + how, "%d parameters for %g points: %g" % (K, N, sm.logL))
                mon.count("underdetermined")
                continue
            if np.linalg.cond(D * sw[:, None]) > 300 or N - K < 2:
                mon.count("degenerate")
                continue
            z, at, p, s, rest = reference(m, x, y, w, lo, hi, scale, noise)
            if aname == "levenberg":
                at = at + 1e-2 + (2e-2 * n if noise is not None else 1e-3 * rest / (s * s))
            mon.close(sm.logL, z, "logL:" + how, rtol=0, atol=at, components=K)
            q = np.asarray(sm.allpars, dtype=float)
            optimum(mon, how, D, sw, q[:K], p, rest, aname == "levenberg")
            mon.count("walkers")
            mon.state("run", kind, K, aname, w is not None, noise is not None)
        mon.count("runs")
        mon.count("structures", len(comps))


CASES = [Case("likelihood", likelihood, quick=180, thorough=3000, chunk=15),
         Case("nested", nested, quick=10, thorough=80, chunk=1),
         Case("run", run, quick=10, thorough=120, chunk=1)]
