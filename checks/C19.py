"""C19  Nested sampling recovers known evidences and posteriors."""
import math
import numpy as np
from scipy.special import gammaln
import BayesicFitting as bf
import priors
from harness import Case

RULE = "distinct = (model, error distribution, fitted hyperparameter, priors, sampler, engines, discard, weights, accuracy, kept)"
ASSUMPTIONS = ["the reference integrates prior times likelihood on a refined grid in the unit box of the priors; the problems have one mode",
               "bounds are 6 standard deviations of the reported error, reduced by the square root of the number of runs, plus a slack"]
REQUIRE = {"runs": 60, "problems": 20, "strict": 8}

ENG = [None, None, ["galilean"], ["chord"], ["gibbs"], ["step"], ["gibbs", "chord"], ["galilean", "step"]]


def model(rng):
    """ name, model, function( x, p ) vectorised over p[k] of shape (G,1), truth, x """
    k = int(rng.integers(0, 8))
    n = int(rng.integers(6, 22))
    x = np.sort(rng.uniform(-2, 2, n))
    if k == 0:
        return "const", bf.PolynomialModel(0), lambda x, p: p[0] + 0 * x, [rng.normal()], x
    if k in (1, 2):
        return "line", bf.PolynomialModel(1), lambda x, p: p[0] + p[1] * x, list(rng.normal(0, 1, 2)), x
    if k == 3:
        return "parabola", bf.PolynomialModel(2), lambda x, p: p[0] + x * (p[1] + x * p[2]), list(rng.normal(0, 1, 3)), x
    if k == 4:
        return "gauss", bf.GaussModel(fixed={2: 0.7}), lambda x, p: p[0] * np.exp(-0.5 * ((x - p[1]) / 0.7) ** 2), \
            [rng.uniform(4, 9), rng.uniform(-0.6, 0.6)], np.linspace(-2, 2, n + 6)
    if k == 5:
        return "exp", bf.ExpModel(), lambda x, p: p[0] * np.exp(p[1] * x), [rng.uniform(2, 6), rng.uniform(-0.6, 0.6)], x
    if k == 6:
        return "sine", bf.SineModel(fixed={0: 0.4}), \
            lambda x, p: p[0] * np.cos(2 * math.pi * 0.4 * x) + p[1] * np.sin(2 * math.pi * 0.4 * x), list(rng.normal(0, 1, 2)), x
    return "compound", bf.PolynomialModel(0) + bf.ExpModel(fixed={1: 0.5}), lambda x, p: p[0] + p[1] * np.exp(0.5 * x), \
        list(rng.normal(0, 1, 2)), x


def prior(rng, truth, positive):
    """ (prior, ppf, text) """
    s = float(rng.uniform(1.0, 4.0))
    c = truth + s * float(rng.uniform(-0.5, 0.5))
    kind = int(rng.choice([0, 0, 1, 2, 3, 4, 5, 6]))
    if positive and kind in (1, 2):
        kind = 3
    if kind in (3, 4) and not positive:
        kind = 0
    lo = truth - s if not positive else truth / (1 + s)
    hi = truth + s * 0.7 if not positive else truth * (1 + s)
    if kind == 0:
        return bf.UniformPrior(limits=[lo, hi]), priors.Ref("Uniform", None, None, lo, hi), "uniform"
    if kind == 1:
        return bf.GaussPrior(center=c, scale=s), priors.Ref("Gauss", c, s, None, None), "gauss"
    if kind == 2:
        return bf.CauchyPrior(center=c, scale=s), priors.Ref("Cauchy", c, s, None, None), "cauchy"
    if kind == 3:
        return bf.JeffreysPrior(limits=[lo, hi]), priors.Ref("Jeffreys", None, None, lo, hi), "jeffreys"
    if kind == 4:
        return bf.ExponentialPrior(scale=truth * s), priors.Ref("Exponential", 0.0, truth * s, None, None), "exponential"
    if kind == 5:
        return bf.LaplacePrior(center=c, scale=s, limits=[lo, hi]), priors.Ref("Laplace", c, s, lo, hi), "laplace"
    return bf.GaussPrior(center=c, scale=s, limits=[lo, hi]), priors.Ref("Gauss", c, s, lo, hi), "gauss2"


def density(kind, y, m, hyp, acc, w):
    """ log likelihood : m (G,N), hyp list of (G,1) """
    r = y - m
    if kind == "poisson":
        with np.errstate(all="ignore"):
            t = np.where(m > 0, y * np.log(np.where(m > 0, m, 1)) - m - gammaln(y + 1), -np.inf)
        return t.sum(axis=1)
    s = hyp[0] if acc is None else (np.sqrt(hyp[0] ** 2 + acc ** 2) if kind == "gauss" else acc)
    hyp = list(hyp)
    if kind == "gauss":
        t = -0.5 * np.log(2 * math.pi * s * s) - 0.5 * (r / s) ** 2
    elif kind == "laplace":
        t = -np.log(2 * s) - np.abs(r) / s
    elif kind == "cauchy":
        t = -np.log(math.pi * s * (1 + (r / s) ** 2))
    elif kind == "exponential":
        t = np.log(hyp[1]) - np.log(2 * s) - gammaln(1 / hyp[1]) - np.abs(r / s) ** hyp[1]
    else:                                                   # mixed gauss and laplace
        f = hyp[2]
        a = np.exp(-0.5 * (r / hyp[0]) ** 2) / np.sqrt(2 * math.pi) / hyp[0]
        b = np.exp(-np.abs(r) / hyp[1]) / 2 / hyp[1]
        t = np.log(f * a + (1 - f) * b)
    return (t if w is None else t * w).sum(axis=1)


def integrate(logl, refs):
    """ evidence, information, means, standard deviations by midpoint integration in the unit box """
    d = len(refs)
    box = [(0.0, 1.0)] * d
    coarse = {1: 400, 2: 60, 3: 30, 4: 18}[d]
    fine = {1: 4000, 2: 300, 3: 60, 4: 26}[d]
    for it in range(7):
        n = coarse if it < 6 else fine
        ax = [a + (np.arange(n) + 0.5) * (b - a) / n for a, b in box]
        px = [np.asarray(r.ppf(u)) for r, u in zip(refs, ax)]
        P = np.array(np.meshgrid(*px, indexing="ij")).reshape(d, -1)
        L = np.concatenate([logl(P[:, k:k + 20000]) for k in range(0, P.shape[1], 20000)])
        if it < 6:
            ok = (L > L.max() - 25).reshape((n,) * d)
            new = []
            for k in range(d):
                z = np.flatnonzero(ok.any(axis=tuple(j for j in range(d) if j != k)))
                a, b = box[k]
                h = (b - a) / n
                new.append((max(0.0, a + (z[0] - 1) * h), min(1.0, a + (z[-1] + 2) * h)))
            box = new
    m = L.max()
    w = np.exp(L - m)
    vol = math.prod((b - a) / n for a, b in box)
    logz = m + math.log(w.sum() * vol)
    w /= w.sum()
    mean = P @ w
    sd = np.sqrt(np.maximum((P * P) @ w - mean ** 2, 0))
    with np.errstate(all="ignore"):
        info = float(np.nansum(np.where(w > 0, w * (L - logz), 0)))
    return logz, info, mean, sd


def judge(mon, Z, I, A, S, ess, logz, info, mean, sd, eng, phantom, wit):
    """ compare the runs with the integrals """
    nrun = len(Z)
    tag = "phantom" if phantom else "nested"
    # engines that are known not to spread the walkers quite evenly, when parameters are correlated or next to edges
    rough = [e for e in (eng or ["galilean", "chord"]) if e in ("galilean", "step")]
    err = math.sqrt(max(info, 0.3) / 100 / nrun)
    # phantoms are more correlated than walkers
    tol = (6 if not phantom else 9) * err + 0.1
    dev = np.mean(Z) - logz
    wit.update(evidences=Z, reference=logz, information=info)
    mon.count("strict" if not rough else "rough")
    if rough and tol < abs(dev) <= tol + 0.4 * info:
        mon.violate("bias/" + rough[0], "log evidence %.3f on average, %.3f by integration, with engines %s" % (np.mean(Z), logz, eng), **wit)
    else:
        mon.expect(abs(dev) <= tol, "evidence/" + tag, "log evidence %.3f on average, %.3f by integration; error %.3f" %
                   (np.mean(Z), logz, err), **wit)
    dev = np.mean(I) - info
    if not (rough and tol < abs(dev) <= tol + 0.3 * info):
        mon.expect(abs(dev) <= tol + 0.05, "information/" + tag,
                   "information %.3f on average, %.3f by integration" % (np.mean(I), info), got=I, **wit)
    e = (8 if not phantom else 14) * np.sqrt(3.0 / np.sum(ess)) + (0.2 if rough else 0)
    dz = (A.mean(axis=0) - mean) / sd
    mon.expect(np.all(np.abs(dz) <= e), "mean/" + tag, "average parameters off by %s standard deviations, %.2f allowed" % (dz, e),
               got=A, want=mean, **wit)
    rs = S.mean(axis=0) / sd
    mon.expect(np.all(np.abs(np.log(rs)) <= e + (0.2 if rough else 0)), "stdev/" + tag, "standard deviations %s times the true ones" % rs,
               got=S, want=sd, **wit)
    if DEBUG is not None:
        DEBUG.append(((np.mean(Z) - logz) / err, (np.mean(I) - info) / err, np.abs(dz / e).max(), np.abs(np.log(rs) / e).max(),
                      wit["problem"], str(eng), wit["discard"], tag))


def engine(mon, rng, idx):
    """ fixed problems, one engine at a time, with fixed seeds """
    name = ["galilean", "step", "chord", "gibbs"][idx % 4]
    r = np.random.RandomState(3)
    x = np.linspace(-2, 2, 15)
    if idx % 4 == 1:
        m = bf.PolynomialModel(0)
        fun = lambda x, p: p[0] + 0 * x
        y = fun(x, [1.0]) + 0.7 * r.standard_normal(15)
        pr = [bf.GaussPrior(center=1.0, scale=500.0)]
        refs = [priors.Ref("Gauss", 1.0, 500.0, None, None)]
    else:
        m = bf.PolynomialModel(2)
        fun = lambda x, p: p[0] + x * (p[1] + x * p[2])
        y = fun(x, [1.0, -1.0, 0.5]) + 0.7 * r.standard_normal(15)
        box = [(-3, 3), (-30, 30), (-1, 2)]
        pr = [bf.UniformPrior(limits=list(b)) for b in box]
        refs = [priors.Ref("Uniform", None, None, *b) for b in box]
    for k in range(m.npars):
        m.setPrior(k, prior=pr[k])
    ref = integrate(lambda P: density("gauss", y, fun(x, [q[:, None] for q in P]), [0.7], None, None), refs)
    Z, I, A, S, ess = [], [], [], [], []
    for t in range(6):
        ns = bf.NestedSampler(x, m, y, distribution=bf.GaussErrorDistribution(scale=0.7), seed=31 + 7 * t, engines=[name], verbose=0)
        Z.append(ns.sample() * math.log(10))
        mon.count("runs")
        I.append(ns.information)
        A.append(np.asarray(ns.parameters, dtype=float))
        S.append(np.asarray(ns.standardDeviations, dtype=float))
        ess.append(1 / np.sum(np.exp([s.logW for s in ns.samples]) ** 2))
    judge(mon, Z, I, np.array(A), np.array(S), ess, *ref, eng=[name], phantom=False, wit=dict(problem="fixed", discard=1))
    mon.state("engine", name)


def sampling(mon, rng, idx):
    name, m, fun, truth, x = model(rng)
    npar = len(truth)
    posit = {"gauss": [0], "exp": [0]}.get(name, [])
    kinds = ["gauss"] * 6 + ["laplace", "cauchy", "exponential"]
    if name == "exp":
        kinds += ["poisson"] * 6
    if name in ("const", "line"):
        kinds += ["mixed"] * 2
    kind = str(rng.choice(kinds))
    f = fun(x, truth)
    scale = float(np.exp(rng.uniform(-1.0, 0.5)))
    if kind == "poisson":
        y = rng.poisson(f).astype(float)
    else:
        y = f + scale * (rng.normal(0, 1, len(x)) if kind in ("gauss", "exponential", "mixed") else rng.laplace(0, 1, len(x)))
    acc = w = None
    form = int(rng.integers(4))
    fit = kind != "poisson" and npar < 3 and rng.random() < 0.5
    if kind not in ("poisson", "cauchy", "mixed") and form == 1:
        w = rng.integers(1, 4, len(x)).astype(float)
    if kind not in ("poisson", "mixed") and form == 2 and not fit:
        acc = scale * rng.uniform(0.5, 1.5, len(x))
    if kind == "gauss" and form == 2 and fit:
        acc = scale * rng.uniform(0.3, 1.0, len(x))
    refs, texts = [], []
    for k in range(npar):
        pr, ref, t = prior(rng, truth[k], k in posit)
        m.setPrior(k, prior=pr)
        refs.append(ref)
        texts.append(t)
    lims = [scale * 0.2, scale * 6]
    hyp = [scale]
    E = {"gauss": bf.GaussErrorDistribution, "laplace": bf.LaplaceErrorDistribution, "cauchy": bf.CauchyErrorDistribution,
         "poisson": bf.PoissonErrorDistribution}.get(kind)
    keep = None
    if kind == "poisson":
        ed, hyp = E(), []
    elif kind == "exponential":
        power = float(rng.uniform(1.0, 3.0))
        hyp = [scale, power]
        ed = bf.ExponentialErrorDistribution(scale=scale, power=power)
        if fit:
            ed = bf.ExponentialErrorDistribution(scale=scale, power=power, limits=[[lims[0], 0.9], [lims[1], 3.1]])
            refs += [priors.Ref("Jeffreys", None, None, lims[0], lims[1]), priors.Ref("Jeffreys", None, None, 0.9, 3.1)]
    elif kind == "mixed":
        fr = float(rng.uniform(0.2, 0.8))
        hyp = [scale, 2 * scale, fr]
        ed = bf.MixedErrorDistribution(bf.GaussErrorDistribution(scale=scale), bf.LaplaceErrorDistribution(scale=2 * scale), fraction=fr)
        fit = False
    else:
        ed = E(scale=scale)
        if fit:
            ed = E(scale=scale, limits=lims)
            refs.append(priors.Ref("Jeffreys", None, None, lims[0], lims[1]))
    if acc is not None and not fit:
        hyp[0] = 0.0
    free = list(range(npar))
    if npar > 1 and rng.random() < 0.2:
        kk = int(rng.integers(npar))
        keep = {kk: float(truth[kk])}
        free.remove(kk)
        refs.pop(kk)
    nh = len(refs) - len(free)

    def logl(P):
        G = P.shape[1]
        p = [None] * npar
        for j, k in enumerate(free):
            p[k] = P[j][:, None]
        if keep:
            for k in keep:
                p[k] = np.full((G, 1), keep[k])
        h = [P[len(free) + k][:, None] for k in range(nh)] + hyp[nh:]
        return density(kind, y, fun(x, p), h, acc, w)

    logz, info, mean, sd = integrate(logl, refs)
    mon.count("problems")
    phantom = rng.random() < 0.15
    disc = 1 if phantom or rng.random() < 0.7 else int(rng.integers(2, 8))
    eng = ENG[int(rng.integers(len(ENG)))]
    ens = 100
    nrun = 3
    prob = None
    if rng.random() < 0.3:
        prob = bf.ClassicProblem(model=m, xdata=x, ydata=y, weights=w, accuracy=acc)
    kw = dict(distribution=ed, ensemble=ens, verbose=0)
    if prob is not None:
        kw["problem"] = prob
    else:
        kw.update(model=m, xdata=x, ydata=y, weights=w, accuracy=acc)
    if eng:
        kw["engines"] = eng
    if keep:
        kw["keep"] = keep
    if phantom:
        kw["step"] = 4
    else:
        kw["discard"] = disc
    text = "%s, %s, priors %s, %d fitted hyperparameters, %s" % (name, kind, texts, nh,
           "accuracy" if acc is not None else "weights" if w is not None else "plain")
    tag = ("phantom" if phantom else "nested")
    Z, I, A, S, ess = [], [], [], [], []
    for t in range(nrun):
        ns = (bf.PhantomSampler if phantom else bf.NestedSampler)(seed=int(rng.integers(1 << 30)), **kw)
        ev = ns.sample()
        mon.count("runs")
        Z.append(ev * math.log(10))
        I.append(ns.information)
        q = np.asarray(ns.parameters, dtype=float)[free]
        s = np.asarray(ns.standardDeviations, dtype=float)[free]
        if nh:
            q = np.append(q, np.asarray(ns.hypars, dtype=float)[:nh])
            s = np.append(s, np.asarray(ns.stdevHypars, dtype=float)[:nh])
        A.append(q)
        S.append(s)
        ww = np.exp([s.logW for s in ns.samples])
        ess.append(1 / np.sum(ww ** 2))
    judge(mon, Z, I, np.array(A), np.array(S), ess, logz, info, mean, sd, eng, phantom,
          dict(problem=text, engines=str(eng), discard=disc, keep=str(keep)))
    mon.state(name, kind, nh, tuple(texts), tag, str(eng), disc, acc is None, w is None, bool(keep))
    mon.sample("log evidence %.2f %.2f %.2f against %.3f" % (Z[0], Z[1], Z[2], logz), problem=text, engines=str(eng))


DEBUG = None
CASES = [Case("engine", engine, quick=4, thorough=4, limit=300), Case("sampling", sampling, quick=32, thorough=300, limit=300)]
