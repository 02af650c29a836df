"""C08  Prior densities are the derivatives of the mapping and consistent in log."""
import math
import numpy as np
from scipy import integrate
import priors
from harness import Case

RULE = "distinct = (prior, way the limits/attributes were set, which limits, circular) of which the density was compared"
ASSUMPTIONS = ["limits leave more than a percent of the mass of a proper prior",
               "numeric derivatives are compared away from limits and cusps"]
REQUIRE = {"priors": 600, "circular": 100, "integrals": 100, "outside": 300}


def density(mon, rng, idx):
    circ = idx % 5 == 4
    if circ:
        p, r, text, tag = priors.random_circular(rng)
        tag = "circular:" + tag
        kind, how = tag, "circular"
    else:
        kind = priors.KINDS[idx % len(priors.KINDS)]
        p, r, text, how = priors.random_prior(rng, kind)
        tag = "%s:%s" % (kind, how)
    if not r.proper or r.mass < 0.01:
        return
    with mon.guarded("error:" + tag, prior=text):
        u = rng.uniform(0.001, 0.999, 14)
        x = np.asarray(r.ppf(u), dtype=float)
        want = r.pdf(x)
        got = np.array([float(p.result(float(v))) for v in x])
        mon.close(got, want, "result:" + tag, rtol=1e-7, prior=text, x=x)
        mon.close(np.asarray(p.result(x.copy()), dtype=float), want, "result-array:" + tag, rtol=1e-7, prior=text, x=x)
        mon.close([float(p.partialDomain2Unit(float(v))) for v in x], want, "partialDomain2Unit:" + tag, rtol=1e-7, prior=text, x=x)
        lg = np.array([float(p.logResult(float(v))) for v in x])
        mon.close(lg, np.log(want), "logResult:" + tag, rtol=0, atol=1e-7, prior=text, x=x)
        mon.close(np.asarray(p.logResult(x.copy()), dtype=float), np.log(want), "logResult-array:" + tag, rtol=0, atol=1e-7, prior=text)
        away = np.minimum(np.abs(x - r.lo), np.abs(x - r.hi)) > 1e-3 * r.scale
        if r.kind == "Laplace":
            away &= np.abs(x - r.center) > 1e-3 * r.scale
        for v in x[away]:
            v = float(v)
            mon.close(float(p.partialLog(v)), float(r.dlog(v)), "partialLog:" + tag, rtol=1e-9, atol=1e-12, prior=text, x=v)
            p.deltaP = 1e-4 * r.scale if r.kind != "Jeffreys" else 1e-4 * v
            # the mapping itself
            f = (3.0 if circ else 1.0)
            h = p.deltaP
            if v - h <= r.lo or v + h >= r.hi:
                continue
            slope = f * (float(p.domain2Unit(v + h)) - float(p.domain2Unit(v - h))) / (2 * h)
            wv = float(r.pdf(v))
            mon.close(slope, wv, "slope-of-domain2Unit:" + tag, rtol=2e-3, atol=1e-9 / h, prior=text, x=v)
            mon.close(f * float(p.numPartialDomain2Unit(v)), wv, "numPartialDomain2Unit:" + tag, rtol=2e-3, atol=1e-9 / h,
                      prior=text, x=v)
            mon.close(float(p.numPartialLog(v)), float(r.dlog(v)), "numPartialLog:" + tag, rtol=2e-3, atol=1e-3 / r.scale + 1e-9 / h,
                      prior=text, x=v)
        # outside the limits
        if not circ:
            for b, s in ((r.lo, -1.0), (r.hi, 1.0)):
                if math.isfinite(b):
                    v = float(b + s * (1e-3 + rng.exponential(1.0)) * r.scale)
                    mon.expect(float(p.result(v)) == 0.0, "zero-outside:" + tag, prior=text, x=v, got=float(p.result(v)))
                    mon.expect(float(p.logResult(v)) == -math.inf, "log-outside:" + tag, prior=text, x=v)
                    a = np.array([v, x[0]])
                    mon.close(np.asarray(p.result(a), dtype=float), [0.0, want[0]], "array-outside:" + tag, rtol=1e-7, prior=text, x=a)
                    mon.count("outside")
        # total
        if rng.random() < 0.4:
            lo, hi = float(r.ppf(1e-9)) if not math.isfinite(r.lo) else r.lo, float(r.ppf(1 - 1e-9)) if not math.isfinite(r.hi) else r.hi
            q = np.unique(np.concatenate(([lo], r.ppf(np.linspace(0.001, 0.999, 30)), [hi])))
            q = q[(q >= lo) & (q <= hi)]
            tot = sum(integrate.fixed_quad(lambda t: np.array([float(p.result(float(z))) for z in t]), a, b, n=12)[0]
                      for a, b in zip(q[:-1], q[1:]))
            mon.close(tot, 1.0, "integral:" + tag, rtol=0.01, prior=text)
            mon.count("integrals")
        mon.count("circular" if circ else "priors")
        mon.state(kind, how, r.limited)
    mon.sample(text)


CASES = [Case("density", density, quick=1500, thorough=24000, chunk=60)]
