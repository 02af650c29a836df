"""C09  Likelihoods equal the documented distribution over the weighted data."""
import math
import numpy as np
from scipy import special
import BayesicFitting as bf
import errdis
from harness import Case

RULE = "distinct = (distributions, model, weights, accuracy form) compared with the log densities of scipy.stats"
ASSUMPTIONS = ["the result of the model is taken from the model itself (C01)",
               "an accuracy is added in quadrature to the scale in (2d-)Gauss, replaces the scale in the others",
               "distributions that do not accept weights ignore them"]
REQUIRE = {"likelihoods": 500, "weighted": 200, "accuracy": 200, "histories": 400, "copies": 100, "sampled": 8, "free scales": 50}


def likelihood(mon, rng, idx):
    kind = errdis.KINDS[idx % len(errdis.KINDS)]
    with mon.guarded("error:" + kind):
        s = errdis.make(rng, kind)
        tag = s.tag
        e, pr = s.errdis, s.problem
        with mon.guarded("error:" + tag, what=s.text):
            mon.expect(e.acceptWeight() == s.accept, "acceptWeight:" + tag, what=s.text)
            for rep in range(2):
                q = s.allpars.copy()
                if rep:
                    q[:s.npars] *= 1 + 0.02 * rng.normal(size=s.npars)
                    if kind != "bernoulli" and s.nhyp:
                        q[s.npars:] *= 1 + 0.02 * rng.normal(size=s.nhyp)
                want = s.ref(q)
                keep = q.copy()
                lld = np.asarray(e.logLdata(pr, q.copy()), dtype=float)
                tot = float(np.sum(want))
                scale = 1 + float(np.sum(np.abs(want[np.isfinite(want)])))
                mon.close(lld, want, "logLdata:" + tag, rtol=1e-9, atol=1e-8, what=s.text)
                mon.close(e.logLikelihood(pr, q), tot, "logLikelihood:" + tag, rtol=1e-10, atol=1e-10 * scale, what=s.text)
                mon.expect(np.array_equal(q, keep), "parameters-untouched:" + tag, what=s.text)
                mon.close(e.logLhood(pr, q), tot, "logLhood:" + tag, rtol=1e-10, atol=1e-10 * scale, what=s.text)
                mon.close(e.updateLogL(pr, q, parval={0: q[0]}), tot, "updateLogL:" + tag, rtol=1e-10, atol=1e-10 * scale, what=s.text)
                if hasattr(e, "logLikelihood_alt") and kind != "mixed":
                    mon.close(e.logLikelihood_alt(pr, q), tot, "logLikelihood_alt:" + tag, rtol=1e-9, atol=1e-9 * scale, what=s.text)
                if kind != "gauss2d":
                    mk = np.asarray(pr.result(q[:s.npars]), dtype=float)
                    mon.close(e.logLdata(pr, q, mockdata=mk), want, "logLdata-mock:" + tag, rtol=1e-9, atol=1e-8, what=s.text)
                mon.count("likelihoods")
            if s.w is not None:
                mon.count("weighted")
            if pr.hasAccuracy:
                mon.count("accuracy")
            # n times the same point has n times the weight
            if s.w is not None and s.accept and not s.multi and kind != "gauss2d" and np.all(s.w == np.round(s.w)) :
                rep = np.repeat(np.arange(len(s.w)), s.w.astype(int))
                acc = s.acc if np.ndim(s.acc) == 0 else s.acc[rep]
                p2 = bf.ClassicProblem(model=s.model, xdata=s.x[rep], ydata=s.y[rep], accuracy=acc)
                mon.close(e.logLikelihood(pr, s.allpars), e.logLikelihood(p2, s.allpars), "repeated-points:" + tag, rtol=1e-9,
                          atol=1e-9 * scale, what=s.text)
                mon.count("repeated")
            # a copy is the same distribution
            c = e.copy()
            mon.expect(type(c) is type(e), "copy:" + tag, what=s.text)
            mon.close(c.logLikelihood(pr, s.allpars), float(np.sum(s.ref(s.allpars))), "copy:" + tag, rtol=1e-10, atol=1e-8,
                      what=s.text)
            mon.state(*s.form)
            mon.sample(s.text, logL=tot)


def constrained(mon, rng, idx):
    """ user provided constraints get the likelihood and may adapt it """
    kind = errdis.KINDS[idx % len(errdis.KINDS)]
    s = errdis.make(rng, kind)
    if hasattr(s, "acc") and kind == "uniform":
        pass
    seen = []

    def cons(logL, problem, allpars, lowL):
        seen.append((logL, problem is s.problem, np.array_equal(allpars, s.allpars), lowL))
        return logL - 5.5
    e = s.errdis
    e.lowLhood = -123.0
    ref = float(np.sum(s.ref(s.allpars)))
    e.constrain = cons
    mon.close(e.logLikelihood(s.problem, s.allpars), ref - 5.5, "constrained:" + kind, rtol=1e-9, atol=1e-7, what=s.text)
    mon.expect(len(seen) == 1 and seen[0][1] and seen[0][2] and seen[0][3] == -123.0, "constrain-arguments:" + kind, seen=str(seen))
    c = e.copy()
    c.lowLhood = -1.0
    mon.close(c.logLikelihood(s.problem, s.allpars), ref - 5.5, "constrained-copy:" + kind, rtol=1e-9, atol=1e-7, what=s.text)
    e.constrain = None
    mon.close(e.logLikelihood(s.problem, s.allpars), ref, "unconstrained:" + kind, rtol=1e-9, atol=1e-7, what=s.text)
    mon.count("constrained")


def scales_free(mon, rng, idx):
    """ the scale at any size of the residuals, for the distributions that ignore weights """
    n = int(rng.integers(10, 60))
    size = float(10 ** rng.uniform(-8, 8))
    x = rng.uniform(-1, 1, n)
    y = size * (rng.standard_cauchy(n) if rng.random() < 0.7 else rng.normal(size=n))
    w = [None, np.ones(n), np.full(n, 3.0), rng.uniform(0.2, 4, n)][int(rng.integers(4))]
    q = size * rng.normal(0, 0.1, 2)
    m = bf.PolynomialModel(1)
    pr = bf.ClassicProblem(m, xdata=x, ydata=y, weights=w)
    r = y - (q[0] + q[1] * x)
    wit = dict(size=size, n=n, weights=w)
    with mon.guarded("error:scale:free", **wit):
        e = bf.CauchyErrorDistribution(scale=1.0)
        for how in ("given", "model"):
            m.parameters = q if how == "model" else np.zeros(2)
            s = float(e.getScale(pr, allpars=np.append(q, 1.0)) if how == "given" else e.getScale(pr))
            # the average of log( 1 + ( r / s )^2 ) has its expected value log( 4 ) ; approximated by sqrt( 2 )
            a = float(np.mean(np.log1p((r / s) ** 2)))
            mon.expect(1.37 < a < 1.43, "getScale:cauchy", "scale %g gives %g" % (s, a), how=how, **wit)
        e = bf.BernoulliErrorDistribution()
        m.parameters = np.zeros(2)
        mon.close(e.getScale(pr, allpars=q), np.max(np.abs(r)), "getScale:bernoulli", rtol=1e-9, **wit)
        mon.close(e.toSigma(3.0), 3.0 / math.sqrt(3), "toSigma:bernoulli")
        e = bf.PoissonErrorDistribution()
        mon.close(e.getChisq(pr, allpars=q), np.sum((np.ones(n) if w is None else w) * r * r), "getChisq:poisson", rtol=1e-9, **wit)
    mon.count("free scales")
    mon.state("free", int(np.log10(size)), w is None)


def scales(mon, rng, idx):
    """ the scale that is derived from the residuals is where the likelihood is maximal """
    kind = ["gauss", "laplace", "uniform", "exponential"][idx % 4]
    s = errdis.make(rng, kind, {"accuracy": 0})
    if s.multi:
        return
    e, pr = s.errdis, s.problem
    w = np.ones(len(s.y)) if s.w is None else s.w
    r = s.y - s.mock
    tag = kind
    with mon.guarded("error:scale:" + tag, what=s.text):
        sig = None
        if kind == "gauss":
            want = math.sqrt(np.sum(w * r * r) / np.sum(w))
            sig = want
            mon.close(e.getChisq(pr, s.allpars), np.sum(w * r * r), "getChisq:" + tag, what=s.text)
        elif kind == "laplace":
            want = np.sum(w * np.abs(r)) / np.sum(w)
            sig = math.sqrt(2) * want
        elif kind == "uniform":
            want = np.max(np.abs(r[w > 0]))
            sig = want / math.sqrt(3)
        else:
            # the likelihood is maximal where s^p is p times the mean of |r|^p
            pw = s.hyp[1]
            want = (pw * np.sum(w * np.abs(r) ** pw) / np.sum(w)) ** (1 / pw)
            mon.close(e.getScale(pr, allpars=s.allpars), want, "getScale:" + tag, rtol=1e-9, what=s.text)
            want = None
        if want is not None:
            mon.close(e.getScale(pr, allpars=s.allpars), want, "getScale:" + tag, rtol=1e-9, what=s.text)
            s.model.parameters = s.params
            mon.close(e.getScale(pr), want, "getScale-model:" + tag, rtol=1e-9, what=s.text)
            mon.close(e.toSigma(want), sig, "toSigma:" + tag, rtol=1e-9, what=s.text)
        if kind == "exponential":
            sc, p = s.hyp
            mon.close(e.toSigma([sc, p]), sc * math.sqrt(special.gamma(3 / p) / special.gamma(1 / p)), "toSigma:" + tag, rtol=1e-9)
        mon.count("scales")


def limits_of(rng, v, frac):
    if frac:
        return float(rng.uniform(0.01, 0.3)), float(rng.uniform(0.7, 0.99))
    return v * float(rng.uniform(0.1, 0.9)), v * float(rng.uniform(1.1, 10))


def compare(mon, d, ref, how, **wit):
    """ the hyperparameters as they can be observed; ref = [[value, fixed, kind of prior or None, low, high]] """
    hp = list(d.hyperpar)
    if not mon.expect(len(hp) == len(ref), "hyper-number:" + how, "%d" % len(hp), **wit):
        return False
    ok = mon.close([h.hypar for h in hp], [r[0] for r in ref], "hyper-value:" + how, **wit)
    ok &= mon.close(d.hypar, [r[0] for r in ref], "hypar:" + how, **wit) if len(ref) else True
    for k, (h, r) in enumerate(zip(hp, ref)):
        if r[2] is not None or h.prior is None:         # an unbound prior does not make it variable
            ok &= mon.expect(bool(h.isFixed) == r[1], "hyper-fixed:" + how, "item %d: %s" % (k, h.isFixed), **wit)
        if r[2] is None:
            ok &= mon.expect(h.prior is None or not h.isBound(), "hyper-prior:" + how, "item %d has %s" % (k, h.prior), **wit)
        elif mon.expect(h.prior is not None and h.prior.__class__.__name__ == r[2], "hyper-prior:" + how, "item %d has %s" % (k, h.prior), **wit):
            ok &= mon.close(h.getLimits(), r[3:5], "hyper-limits:" + how, **wit)
            # the unit interval is mapped on the limits
            u = 0.37
            v = r[3] + u * (r[4] - r[3]) if r[2] == "UniformPrior" else r[3] * (r[4] / r[3]) ** u
            ok &= mon.close(d.unit2Domain(u, k), v, "hyper-unit2Domain:" + how, rtol=1e-9, **wit)
            ok &= mon.close(d.domain2Unit(v, k), u, "hyper-domain2Unit:" + how, rtol=1e-9, **wit)
        else:
            ok = False
    return ok


def copies(mon, rng, idx):
    """ histories of a distribution and its copies, of which the hyperparameters are fixed, limited and set """
    kind = ["gauss", "laplace", "cauchy", "uniform", "exponential", "gauss2d", "mixed", "poisson", "bernoulli"][idx % 9]
    lims = None
    if kind in ("poisson", "bernoulli"):
        d, ref = errdis.CLASS[kind](), []
    elif kind == "mixed":
        k2 = [str(k) for k in rng.choice(["gauss", "laplace", "cauchy", "exponential"], 2)]
        parts, ref = [], []
        for k in k2:
            h = errdis.hypers(rng, k)
            kw = {"power": h[1]} if len(h) > 1 else {}
            parts.append(errdis.CLASS[k](scale=h[0], **kw))
            ref += [[v, True, None, 0, 0] for v in h]
        f = float(rng.uniform(0.2, 0.8))
        d = bf.MixedErrorDistribution(parts[0], parts[1], fraction=f)
        ref.append([f, True, None, 0, 0])
    else:
        h = errdis.hypers(rng, kind)
        ref = [[v, True, None, 0, 0] for v in h]
        kw = {"power": h[1]} if len(h) > 1 else {}
        if rng.random() < 0.5:
            n = int(rng.integers(1, len(h) + 1))
            lims = [limits_of(rng, v, False) for v in h[:n]]
            for k in range(n):
                ref[k][1:] = [False, "JeffreysPrior", lims[k][0], lims[k][1]]
            kw["limits"] = [[a for a, b in lims], [b for a, b in lims]] if n > 1 else list(lims[0])
        d = errdis.CLASS[kind](scale=h[0], **kw)
    others = []
    if not compare(mon, d, ref, kind + "/new"):
        return
    for t in range(int(rng.integers(3, 10))):
        op = str(rng.choice(["copy", "copy", "copy", "limits", "keep", "reset", "value", "priors"]))
        how = kind + "/" + op
        nh = len(ref)
        with mon.guarded("error:" + how):
            if op == "copy":
                c = d.copy()
                mon.expect(c.__class__ is d.__class__ and c is not d, "class:" + kind, "%s" % c.__class__)
                r2 = [list(r) for r in ref]
                if rng.random() < 0.5:
                    d, c = c, d
                others.append((c, r2))
                mon.count("copies")
            elif op == "limits" and nh:
                n = 1 if rng.random() < 0.3 else nh
                new = [limits_of(rng, ref[k][0], kind == "mixed" and k == nh - 1) for k in range(n)]
                if n == 1:
                    d.setLimits(list(new[0]))
                else:
                    d.setLimits([[a for a, b in new], [b for a, b in new]] if rng.random() < 0.5 else np.array(new).T)
                for k in range(n):
                    pr = ref[k][2] or ("UniformPrior" if kind == "mixed" and k == nh - 1 else "JeffreysPrior")
                    ref[k][1:] = [False, pr, new[k][0], new[k][1]]
            elif op == "priors" and nh:
                n = 1 if rng.random() < 0.3 else nh
                new = [limits_of(rng, ref[k][0], kind == "mixed" and k == nh - 1) for k in range(n)]
                pr = [bf.UniformPrior(limits=list(v)) for v in new]
                d.setPriors(pr if n > 1 or rng.random() < 0.5 else pr[0])
                for k in range(n):
                    ref[k][1:] = [False, "UniformPrior", new[k][0], new[k][1]]
            elif op == "keep" and nh:
                ks = rng.choice(nh, int(rng.integers(1, nh + 1)), replace=False)
                val = {int(k): float(ref[k][0] * rng.uniform(0.8, 1.2)) for k in ks}
                d.keepFixed(dict(val))
                for k in range(nh):
                    ref[k][1] = k in val or ref[k][2] is None
                    ref[k][0] = val.get(k, ref[k][0])
            elif op == "reset" and nh:
                d.keepFixed()
                for k in range(nh):
                    ref[k][1] = ref[k][2] is None
            elif op == "value" and nh and kind not in ("mixed",):
                d.scale = ref[0][0] = float(ref[0][0] * rng.uniform(0.8, 1.2))
                mon.close(d.scale, ref[0][0], "scale:" + how)
            if not compare(mon, d, ref, how, step=t):
                return
            for c, r2 in others:
                if not compare(mon, c, r2, how + "/other", step=t):
                    return
            mon.count("histories")
            mon.state("copies", kind, op, lims is None, min(len(others), 2))
    # the likelihood is the same
    others.append((d, ref))
    s = errdis.make(rng, kind) if kind != "mixed" else None
    if s is not None:
        want = float(np.sum(s.ref(s.allpars)))
        for c, r in others:
            mon.close(c.logLikelihood(s.problem, s.allpars), want, "logL:%s/copy" % kind, rtol=1e-9, atol=1e-9)
    # and in nested sampling what is not fixed is sampled
    if kind in ("gauss", "laplace", "cauchy", "exponential") and rng.random() < 0.4:
        x = np.linspace(0, 1, 7)
        m = bf.PolynomialModel(0)
        m.setLimits([-3.0], [3.0])
        c, r = others[int(rng.integers(len(others)))]
        with mon.guarded("error:sampled:" + kind):
            ns = bf.NestedSampler(x, m, rng.normal(0, 1, 7), distribution=c, verbose=0, ensemble=10, seed=int(rng.integers(1 << 20)))
            ns.minimumIterations, ns.maxIterations = 5, 12
            ns.sample()
            for sm in ns.samples:
                for k in range(len(r)):
                    v = sm.allpars[1 + k]
                    if r[k][1]:
                        mon.close(v, r[k][0], "sampled-fixed:" + kind)
                    else:
                        mon.expect(r[k][3] <= v <= r[k][4], "sampled-limits:" + kind, "%s outside %s" % (v, r[k][3:]))
            mon.count("sampled")


CASES = [Case("copies", copies, quick=180, thorough=3000, chunk=15),
         Case("likelihood", likelihood, quick=720, thorough=12000, chunk=45),
         Case("constrained", constrained, quick=90, thorough=900, chunk=30),
         Case("scales", scales, quick=120, thorough=1600, chunk=40),
         Case("scales_free", scales_free, quick=60, thorough=800, chunk=30)]
