"""C07  Priors map the unit interval onto their domain and back."""
import math
import numpy as np
import BayesicFitting as bf
import priors
from harness import Case

RULE = "distinct = (prior, way the limits/attributes were set, which limits, circular) compared with the quantiles"
ASSUMPTIONS = ["limits leave more than a percent of the mass of a proper prior",
               "at unit values 0 and 1 only finiteness, order and limits are checked for unlimited sides"]
REQUIRE = {"priors": 600, "circular": 200, "limited": 300, "copies": 50, "through-model": 30}


def scalar(f, u):
    return np.array([float(f(float(v))) for v in u])


def linear(mon, rng, idx):
    kind = priors.KINDS[idx % len(priors.KINDS)]
    how = priors.HOW[(idx // len(priors.KINDS)) % len(priors.HOW)]
    p, r, text, how = priors.random_prior(rng, kind, how)
    if not r.proper or r.mass < 0.01:
        return
    tag = "%s:%s" % (kind, how)
    with mon.guarded("error:" + tag, prior=text):
        u = np.sort(np.concatenate((rng.uniform(0, 1, 12), [1e-6, 1 - 1e-6, 0.5])))
        span = r.scale if kind not in ("Uniform", "Jeffreys") else r.hi - r.lo
        for form in ("scalar", "array"):
            d = scalar(p.unit2Domain, u) if form == "scalar" else np.asarray(p.unit2Domain(u.copy()), dtype=float)
            t = tag if form == "scalar" else tag + "/array"
            mon.close(r.cdf(d), u, "unit2Domain:" + t, rtol=0, atol=3e-9, prior=text, u=u, d=d, ref=r.ppf(u))
            mon.expect(np.all(np.diff(d) >= 0), "monotone:" + t, prior=text, u=u, d=d)
            eps = 1e-9 * (1 + abs(d).max())
            mon.expect(np.all(d >= r.lo - eps) and np.all(d <= r.hi + eps), "inside-limits:" + t, prior=text, d=d)
            x = r.ppf(rng.uniform(1e-5, 1 - 1e-5, 12))
            v = scalar(p.domain2Unit, x) if form == "scalar" else np.asarray(p.domain2Unit(x.copy()), dtype=float)
            mon.close(v, r.cdf(x), "domain2Unit:" + t, rtol=0, atol=3e-9, prior=text, x=x)
            back = scalar(p.unit2Domain, v) if form == "scalar" else np.asarray(p.unit2Domain(v.copy()), dtype=float)
            mon.close(r.cdf(back), r.cdf(x), "roundtrip:" + t, rtol=0, atol=1e-9, prior=text, x=x, back=back)
            tol = 1e-6 * np.maximum(1, 1 / np.maximum(r.pdf(x) * span, 1e-12) * 1e-4) * (span + np.abs(x))
            mon.expect(np.all(np.abs(back - x) <= tol), "roundtrip-domain:" + t, prior=text, x=x, back=back)
        # the ends
        e0, e1 = float(p.unit2Domain(0.0)), float(p.unit2Domain(1.0))
        mid = float(p.unit2Domain(0.5))
        mon.expect(math.isfinite(e0) and math.isfinite(e1) and e0 <= mid <= e1, "ends:" + tag, prior=text, e0=e0, e1=e1)
        tol = 1e-6 * (span + max(abs(e0), abs(e1)))
        if math.isfinite(r.lo):
            mon.expect(abs(e0 - r.lo) <= 1e-6 * (span + abs(r.lo)), "low-end:" + tag, prior=text, e0=e0, lo=r.lo)
            mon.close(float(p.domain2Unit(r.lo)), 0.0, "low-unit:" + tag, atol=1e-9, prior=text)
        else:
            mon.expect(e0 <= mid - 5 * r.scale, "far-end:" + tag, prior=text, e0=e0)
        if math.isfinite(r.hi):
            # close to the limit: the same distance in unit space
            mon.expect(abs(r.cdf(min(e1, r.hi)) - 1) < 1e-9 and e1 <= r.hi + 1e-6 * (span + abs(r.hi)), "high-end:" + tag,
                       prior=text, e1=e1, hi=r.hi)
            mon.close(float(p.domain2Unit(r.hi)), 1.0, "high-unit:" + tag, atol=1e-9, prior=text)
        else:
            mon.expect(e1 >= mid + 5 * r.scale, "far-end:" + tag, prior=text, e1=e1)
        mon.count("priors")
        mon.state(kind, how, r.limited)
        if any(r.limited):
            mon.count("limited")
        if how == "copy":
            mon.count("copies")
        # through a model and its setLimits
        if how == "model" or rng.random() < 0.1:
            m = bf.PolynomialModel(1)
            m.setPrior(0, prior=bf.UniformPrior(limits=[3.0, 4.0]))
            m.setPrior(1, prior=p.copy())
            mon.close(r.cdf(np.array([m.unit2Domain(np.array([0.5, w]))[1] for w in u])), u, "model-unit2Domain:" + tag, atol=3e-9,
                      rtol=0, prior=text)
            mon.close(float(m.unit2Domain(0.25, 0)), 3.25, "model-unit2Domain:" + tag, prior=text)
            mon.close([m.domain2Unit(np.array([3.5, w]))[1] for w in x], r.cdf(x), "model-domain2Unit:" + tag, atol=3e-9,
                      rtol=0, prior=text)
            mon.count("through-model")
    mon.sample(text)


def queries(mon, rng, idx):
    """ questions about the limits """
    kind = priors.KINDS[idx % len(priors.KINDS)]
    p, r, text, how = priors.random_prior(rng, kind)
    tag = "%s:%s" % (kind, how)
    with mon.guarded("error:queries:" + tag, prior=text):
        mon.expect(p.hasLowLimit() == r.limited[0] and p.hasHighLimit() == r.limited[1] and
                   p.hasLimits() == any(r.limited), "hasLimits:" + tag, prior=text)
        mon.expect(p.isBound() == r.proper, "isBound:" + tag, prior=text)
        l = np.asarray(p.getLimits(), dtype=float)
        mon.close(l, [r.lo, r.hi], "getLimits:" + tag, prior=text)
        if kind == "Uniform" or kind == "Jeffreys":
            mon.close(p.getIntegral(), r.integral(), "getIntegral:" + tag, prior=text, rtol=1e-9)
        else:
            mon.close(p.getIntegral(), 1.0, "getIntegral:" + tag, prior=text)
        for v in rng.uniform(-60, 120, 6):
            v = float(v)
            out = v < r.lo or v > r.hi
            mon.expect(bool(p.isOutOfLimits(v)) == out, "isOutOfLimits:" + tag, prior=text, v=v)
            mon.close(p.stayInLimits(v), min(max(v, r.lo), r.hi), "stayInLimits:" + tag, prior=text, v=v)
            try:
                p.checkLimit(v)
                raised = False
            except ValueError:
                raised = True
            mon.expect(raised == out, "checkLimit:" + tag, prior=text, v=v)
        # limits that are not possible are refused
        for bad in ([2.0, 1.0], [3.0, 3.0]) + (([-1.0, 5.0],) if kind in ("Jeffreys", "Exponential") else ()):
            try:
                p.copy().setLimits(list(bad))
                mon.expect(False, "bad-limits-accepted:" + kind, prior=text, bad=bad)
            except ValueError:
                mon.expect(True, "bad-limits-accepted:" + kind)


def circular(mon, rng, idx):
    p, r, text, tag = priors.random_circular(rng)
    with mon.guarded("error:circular:" + tag, prior=text):
        per = r.hi - r.lo
        u = np.concatenate((rng.uniform(0, 1, 15), [0.5, 0.4, 0.6]))
        for f, t in ((lambda g, a: scalar(g, a), tag), (lambda g, a: np.asarray(g(a.copy()), dtype=float), tag + "/array")):
            d = f(p.unit2Domain, u)
            mon.close(r.cdf(d), (3 * u) % 1, "circular-unit2Domain:" + t, rtol=0, atol=1e-8, prior=text, u=u, d=d)
            mon.expect(np.all(d >= r.lo - 1e-9 * (1 + abs(r.lo))) and np.all(d <= r.hi + 1e-9 * (1 + abs(r.hi))),
                       "circular-inside:" + t, prior=text, d=d)
            x = r.lo + per * rng.uniform(0.001, 0.999, 15)
            v = f(p.domain2Unit, x)
            mon.expect(np.all(v >= 1 / 3 - 1e-9) and np.all(v <= 2 / 3 + 1e-9), "circular-middle:" + t, prior=text, v=v)
            mon.close(3 * v - 1, r.cdf(x), "circular-domain2Unit:" + t, rtol=0, atol=1e-8, prior=text, x=x)
            mon.close(f(p.unit2Domain, v), x, "circular-roundtrip:" + t, rtol=0, atol=1e-6 * (per + abs(r.lo)), prior=text, x=x)
            # stepping over the border comes in at the other side
            w = v + np.where(v < 0.5, 1 / 3, -1 / 3)
            mon.close(f(p.unit2Domain, w), x, "circular-wraps:" + t, rtol=0, atol=1e-6 * (per + abs(r.lo)), prior=text, x=x)
        mon.expect(bool(p.isCircular()), "circular-flag:" + tag, prior=text)
        mon.close(p.getLimits(), [r.lo, r.hi], "circular-limits:" + tag, prior=text, rtol=1e-9, atol=1e-12)
        mon.count("circular")
        mon.state("circular", tag)
    mon.sample(text)


CASES = [Case("linear", linear, quick=1440, thorough=24000, chunk=60),
         Case("queries", queries, quick=300, thorough=5000, chunk=60),
         Case("circular", circular, quick=300, thorough=5000, chunk=60)]
