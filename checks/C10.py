"""C10  Likelihood gradients are derivatives of the likelihood."""
import numpy as np
import BayesicFitting as bf
import errdis
from util import stencil
from harness import Case

RULE = "distinct = (distributions, model, weights, accuracy, number of parameters and of hyperparameters selected)"
ASSUMPTIONS = ["points where the numeric derivative of the reference does not converge are skipped",
               "partials of the model are those of C02"]
REQUIRE = {"gradients": 1500, "hyper-gradients": 300, "subsets": 200, "hessians": 30}


def slopes(ref, q, tot):
    """ converged numeric derivatives to each item of q """
    out, ok = [], []
    for k in range(len(q)):
        h0 = 1e-3 * max(0.1, min(1.0, abs(q[k])))

        def f(d, k=k):
            p = q.copy()
            p[k] += d
            return float(np.sum(ref(p)))
        a, b, c = (stencil(f, 0.0, h) for h in (h0, 0.3 * h0, 0.1 * h0))
        good = np.isfinite(a + b + c) and abs(b - c) < 1e-6 * (1 + abs(c) + 1e-4 * abs(tot)) and \
            abs(a - b) < 1e-4 * (1 + abs(c) + 1e-4 * abs(tot))
        out.append(b)
        ok.append(good)
    return np.array(out), np.array(ok)


def gradient(mon, rng, idx):
    kind = errdis.KINDS[idx % len(errdis.KINDS)]
    s = errdis.make(rng, kind)
    tag = s.tag
    e, pr = s.errdis, s.problem
    with mon.guarded("error:" + tag, what=s.text):
        q = s.allpars
        tot = float(np.sum(s.ref(q)))
        if not np.isfinite(tot):
            return
        want, ok = slopes(s.ref, q, tot)
        nh = s.nhyp
        allfi = list(range(s.npars)) + list(range(-nh, 0))
        full = np.array(allfi)
        for rep in range(3):
            if rep == 0:
                fi = full
            else:
                kp = sorted(rng.choice(s.npars, int(rng.integers(1, s.npars + 1)), replace=False).tolist())
                kh = sorted(rng.choice(np.arange(-nh, 0), int(rng.integers(0, nh + 1)), replace=False).tolist()) if nh else []
                if rep == 2 and kh and rng.random() < 0.5:
                    kp = []
                fi = np.array(kp + kh, dtype=int)
                mon.count("subsets")
            keep = q.copy()
            w, g = want[fi], ok[fi]
            tolr, tola = 2e-5, 1e-6 * (1 + 1e-3 * abs(tot)) + 1e-5
            for nm, fn in (("partialLogL", e.partialLogL), ("numPartialLogL", e.numPartialLogL)):
                got = np.asarray(fn(pr, q, fi), dtype=float)
                if not mon.expect(got.shape == (len(fi),), nm + "-shape:" + tag, what=s.text, got=got, fi=fi):
                    continue
                slack = 1 if nm == "partialLogL" else 30
                mon.close(got[g], w[g], nm + ":" + tag, rtol=tolr * slack, atol=tola * slack, what=s.text, fi=fi, ok=g)
            if rep == 0 and hasattr(e, "partialLogL_alt") and kind not in ("mixed",):
                got = np.asarray(e.partialLogL_alt(pr, q, fi), dtype=float)
                mon.close(got[g], w[g], "partialLogL_alt:" + tag, rtol=tolr, atol=tola, what=s.text, fi=fi, ok=g)
            mon.expect(np.array_equal(q, keep), "parameters-untouched:" + tag)
            mon.count("gradients", int(g.sum()))
            if len(fi) and fi[-1] < 0:
                mon.count("hyper-gradients")
            mon.state(s.form, int((fi >= 0).sum()), int((fi < 0).sum()))
        # the contributions of the points add up, each is the slope at that point
        if kind != "gauss2d":
            got = []
            gen = e.nextPartialData(pr, q, full)
            for k in full:
                got.append(np.sum(np.asarray(next(gen), dtype=float)))
            mon.close(np.array(got)[ok], want[full][ok[full]] if True else 0, "nextPartialData:" + tag, rtol=2e-5,
                      atol=1e-6 * (1 + 1e-3 * abs(tot)) + 1e-5, what=s.text)
        mon.sample(s.text, want=want)


def zero_residual(mon, rng, idx):
    """ data that coincide with the model """
    kind = ["gauss", "laplace", "cauchy", "exponential", "mixed"][idx % 5]
    s = errdis.make(rng, kind, {"accuracy": 0})
    if s.multi:
        return
    y = s.y.copy()
    k = int(rng.integers(0, len(y)))
    y[k] = s.mock[k]
    pr = bf.ClassicProblem(model=s.model, xdata=s.x, ydata=y, weights=s.w, accuracy=s.acc)
    full = np.array(list(range(s.npars)) + list(range(-s.nhyp, 0)))
    with mon.guarded("error:zero-residual:" + kind, what=s.text):
        g = s.errdis.partialLogL(pr, s.allpars, full)
        mon.expect(np.all(np.isfinite(g)), "zero-residual-finite:" + kind, what=s.text, g=g)
        mon.count("zero residuals")


def hessian(mon, rng, idx):
    """ second derivatives, where the model is linear in the parameters """
    n = int(rng.integers(5, 30))
    x = np.sort(rng.uniform(-1, 1, n))
    m = bf.PolynomialModel(int(rng.integers(0, 4))) if rng.random() < 0.6 else bf.HarmonicModel(int(rng.integers(1, 3)))
    K = m.npars
    y = rng.normal(0, 1, n) * 2
    w = None if rng.random() < 0.4 else rng.uniform(0.2, 3, n)
    acc = None if rng.random() < 0.5 else (float(rng.uniform(0.2, 1)) if rng.random() < 0.3 else rng.uniform(0.2, 1, n))
    pr = bf.ClassicProblem(model=m, xdata=x, ydata=y, weights=w, accuracy=acc)
    e = bf.GaussErrorDistribution()
    q = np.append(rng.normal(0, 1, K), rng.uniform(0.3, 2))
    full = list(range(K)) + [-1]
    D = np.asarray(m.partial(x, q[:K]))
    how = "gauss%s%s" % ("/w" if w is not None else "", "/acc" if acc is not None else "")

    def grad(p):
        ww = 1.0 if w is None else w
        v = p[-1] ** 2 + (0.0 if acc is None else np.asarray(acc) ** 2)
        r = y - np.asarray(m.result(x, p[:K]))
        return np.append((ww * r / v) @ D, np.sum(ww * (r * r / v ** 2 - 1 / v)) * p[-1])
    H = np.zeros((K + 1, K + 1))
    for k in range(K + 1):
        def f(d, k=k):
            p = q.copy()
            p[k] += d
            return grad(p)
        H[:, k] = stencil(f, 0.0, 1e-3)
    with mon.guarded("error:hessian:" + how):
        for t in range(2):
            fi = full if t == 0 else sorted(rng.choice(K, int(rng.integers(1, K + 1)), replace=False).tolist()) + \
                ([-1] if rng.random() < 0.5 else [])
            keep = q.copy()
            x0 = x.copy()
            got = np.asarray(e.hessianLogL(pr, q, np.array(fi)), dtype=float)
            mon.close(got, H[np.ix_(fi, fi)], "hessianLogL:" + how, rtol=1e-6, atol=1e-6 * (1 + np.abs(H).max()), fi=fi, n=n)
            mon.expect(np.array_equal(q, keep) and np.array_equal(x0, x), "parameters-untouched:hessian")
        mon.count("hessians")
        mon.state("hessian", how, K, len(fi))


CASES = [Case("hessian", hessian, quick=60, thorough=600, chunk=20),
         Case("gradient", gradient, quick=540, thorough=9000, chunk=30),
         Case("zero_residual", zero_residual, quick=60, thorough=600, chunk=30)]
