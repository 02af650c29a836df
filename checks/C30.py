"""C30  The simplex minimiser finds and reports the lowest point."""
import math
import numpy as np
import BayesicFitting as bf
from BayesicFitting.source.ConvergenceError import ConvergenceError
import zoo
from harness import Case

RULE = "distinct = (function, dimension, limits, temperature, outcome) of which all evaluations were recorded"
ASSUMPTIONS = ["functions are deterministic; some are undefined (nan, inf) in part of the domain",
               "at zero temperature convergence is judged on convex functions; a stop where all corners happen to have the "
               "same value is allowed when it is rare"]
REQUIRE = {"evaluations": 50000, "converged": 150, "bounded": 100, "annealed": 60, "fitter": 60, "nonfinite": 100}


class Recorder(object):
    def __init__(self, f):
        self.f = f
        self.x = []
        self.y = []

    def __call__(self, x):
        self.x.append(np.array(x, dtype=float, copy=True))
        y = self.f(np.array(x, dtype=float, copy=True))
        self.y.append(y)
        return y


def functions(rng, nd):
    k = int(rng.integers(7))
    c = rng.normal(size=nd) * 2
    if k == 0:
        a = rng.normal(size=(nd, nd))
        a = a @ a.T + 0.3 * np.eye(nd)
        return "quadratic", c, lambda x: float((x - c) @ a @ (x - c)) + 3.0
    if k == 1:
        s = np.exp(rng.normal(size=nd))
        return "logcosh", c, lambda x: float(np.sum(s * np.log(np.cosh(np.clip(x - c, -300, 300))))) + 1.0
    if k == 2:
        return "rosenbrock", np.ones(nd), lambda x: float(np.sum((1 - x) ** 2) + sum(10 * (x[i + 1] - x[i] ** 2) ** 2
                                                                                   for i in range(len(x) - 1)))
    if k == 3:
        return "waves", None, lambda x: float(np.sum((x - c) ** 2) + 3 * np.sum(1 - np.cos(3 * (x - c))))
    if k == 4:
        return "plateaus", None, lambda x: float(np.sum(np.floor(np.abs(x - c) * 4)))
    if k == 5:
        # not defined everywhere
        def f(x):
            if x[0] < c[0] - 1.5:
                return math.nan
            if x[-1] > c[-1] + 2:
                return math.inf
            return float(np.sum((x - c) ** 2))
        return "domain", None, f
    return "negative", None, lambda x: -float(np.exp(-0.2 * np.sum((x - c) ** 2)))


def history(mon, rec, am, lo, hi, name, **ctx):
    """ judge the history of function evaluations against what is reported """
    x = np.array(rec.x)
    y = np.array(rec.y, dtype=float)
    mon.count("evaluations", len(y))
    ok = np.isfinite(y)
    mon.count("nonfinite", int(np.sum(~ok)))
    if not ok.any() or not np.isfinite(y[0]) and np.isnan(y[0]):
        return
    mon.expect(am.fopt == np.min(y[ok]), "lowest:amoeba", "fopt %s, lowest seen %s" % (am.fopt, np.min(y[ok])), **ctx)
    mon.expect(rec.f(np.array(am.xopt)) == am.fopt, "fopt:amoeba", "f(xopt) = %s, fopt = %s" % (rec.f(np.array(am.xopt)), am.fopt), **ctx)
    if lo is not None:
        bad = np.any((x < lo) | (x > hi), axis=1)
        mon.expect(not bad.any(), "limits:amoeba", "evaluated outside limits", x=x[bad][:2], lo=lo, hi=hi, **ctx)
        mon.expect(np.all((am.simplex >= lo) & (am.simplex <= hi)), "limits:simplex", simplex=am.simplex, lo=lo, hi=hi, **ctx)
        mon.count("bounded")
    for s, v in zip(am.simplex, am.values):
        w = rec.f(np.array(s))
        mon.expect(v == w or (v == math.inf and np.isnan(w)), "values:amoeba", "values %s is not f( simplex ) %s" % (v, w), **ctx)


def amoeba(mon, rng, idx):
    nd = int(rng.integers(1, 6))
    name, best, f = functions(rng, nd)
    start = rng.normal(size=nd) * 2
    if rng.random() < 0.2:
        start[:] = start[0]                         # equal coordinates
    if rng.random() < 0.3:
        start = start.round()
    lo = hi = lim = None
    r = rng.random()
    if r < 0.25:
        lo, hi = np.full(nd, -2.0), np.full(nd, 2.5)
        lim = [-2.0, 2.5]
    elif r < 0.5:
        lo = -np.abs(rng.normal(size=nd)) - 0.5
        hi = np.abs(rng.normal(size=nd)) + 0.5
        if rng.random() < 0.5:
            lo[int(rng.integers(nd))] = -math.inf
        if rng.random() < 0.5:
            hi[int(rng.integers(nd))] = math.inf
        lim = [lo, hi] if rng.random() < 0.5 else [list(lo), list(hi)]
    if lo is not None and rng.random() < 0.3:
        k = int(rng.integers(nd))
        start[k] = lo[k] if rng.random() < 0.5 else hi[k]           # on the border (or nowhere)
        if not np.isfinite(start[k]):
            start[k] = 0.0
    temp = 0 if rng.random() < 0.6 else float(rng.choice([0.1, 1.0, 30.0]))
    size = float(rng.choice([0.1, 1.0, 3.0]))
    if rng.random() < 0.3:
        size = rng.uniform(0.1, 2, nd)
    kw = dict(size=size, temp=temp, limits=lim, seed=int(rng.integers(1000)), maxiter=3000)
    tol = float(rng.choice([1e-3, 1e-5, 1e-7]))
    k = int(rng.integers(3))
    kw.update({0: {"abstol": tol, "reltol": None}, 1: {"abstol": None, "reltol": tol}, 2: {"abstol": tol, "reltol": tol}}[k])
    if temp > 0:
        kw.update(cooling=float(rng.choice([0.5, 0.9])), steps=int(rng.integers(2, 12)))
    rec = Recorder(f)
    keep = start.copy()
    ctx = {"function": name, "start": keep, "kw": {k: v for k, v in kw.items()}}
    try:
        am = bf.AnnealingAmoeba(rec, start, **kw)
    except ValueError as e:
        mon.expect(False, "start:amoeba", str(e), **ctx)
        return
    mon.expect(np.array_equal(start, keep), "start-altered:amoeba", **ctx)
    nan = any(v is None or np.isnan(v) for v in rec.y)
    try:
        x = am.minimize()
        out = "done"
    except ConvergenceError:
        x = None
        out = "toomany"
    nan = nan or any(np.isnan(v) or np.isinf(v) for v in rec.y)
    history(mon, rec, am, lo, hi, name, **ctx)
    if x is not None:
        mon.expect(np.array_equal(x, am.xopt), "returned:amoeba", **ctx)
        if not nan:
            mon.expect(am.ncalls == len(rec.y), "ncalls:amoeba", "%d counted, %d done" % (am.ncalls, len(rec.y)), **ctx)
    if temp > 0:
        mon.count("annealed")
    mon.state(name, nd, lo is not None, temp, out)
    mon.sample("%s in %d dimensions: %d evaluations" % (name, nd, len(rec.y)))


def convergence(mon, rng, idx):
    """ of 12 minimisations of smooth convex functions at most 3 may stop too early (about 1 in 100 does) """
    bad = []
    todo = 12
    while todo > 0:
        nd = int(rng.integers(1, 5))
        name, best, f = functions(rng, nd)
        if name not in ("quadratic", "logcosh"):
            continue
        todo -= 1
        rec = Recorder(f)
        tol = 1e-5
        am = bf.AnnealingAmoeba(rec, rng.normal(size=nd) * 2, size=rng.uniform(0.3, 1, nd), abstol=tol, reltol=tol, maxiter=5000)
        try:
            am.minimize()
        except ConvergenceError:
            bad.append((name, nd, "too many iterations"))
            continue
        history(mon, rec, am, None, None, name, function=name, nd=nd)
        d = am.fopt - f(best)
        mon.count("converged")
        if d > 100 * tol:
            bad.append((name, nd, "%g above the minimum" % d))
    mon.expect(len(bad) < 4, "convergence:amoeba", "%d of 12 stopped early: %s" % (len(bad), bad))
    mon.state("convergence", idx)


def seeded(mon, rng, idx):
    """ the same seed gives the same history """
    nd = int(rng.integers(2, 5))
    name, best, f = functions(rng, nd)
    start = rng.normal(size=nd)
    h = []
    for k in range(2):
        rec = Recorder(f)
        np.random.seed(int(rng.integers(1 << 30)))
        am = bf.AnnealingAmoeba(rec, start.copy(), temp=2.0, seed=77, cooling=0.8, maxiter=2000)
        try:
            am.minimize()
        except ConvergenceError:
            pass
        h.append(np.array(rec.x))
    mon.expect(h[0].shape == h[1].shape and np.array_equal(h[0], h[1], equal_nan=True), "seed:amoeba", function=name)
    mon.count("seeded")
    mon.state("seed", name, nd)


def fitter(mon, rng, idx):
    """ AmoebaFitter: minimum of chisq, kept parameters, limits """
    nd = int(rng.integers(2, 5))
    n = int(rng.integers(8, 30))
    x = np.sort(rng.uniform(-1, 1, n))
    p = rng.normal(size=nd)
    A = np.vander(x, nd, increasing=True)
    y = A @ p + 0.1 * rng.normal(size=n)
    w = rng.uniform(0.5, 2, n) if rng.random() < 0.5 else None
    W = np.ones(n) if w is None else w
    m = bf.PolynomialModel(nd - 1)
    kw = {}
    keep = None
    if nd > 2 and rng.random() < 0.5:
        k = int(rng.integers(nd))
        keep = {k: float(rng.normal())}
    inctor = keep is not None and rng.random() < 0.5
    ft = bf.AmoebaFitter(x, m, **({"keep": keep} if inctor else {}))
    if keep is not None and not inctor:
        kw["keep"] = keep
    lo = hi = None
    if rng.random() < 0.5:
        lo, hi = p - rng.uniform(0.0, 0.5, nd) - 0.05, p + rng.uniform(0.0, 0.5, nd) + 0.05
        kw["limits"] = [lo, hi]
        kw["par0"] = (lo + hi) / 2 + 0.3 * (hi - lo) * rng.uniform(-1, 1, nd)
        kw["size"] = 0.1
    if rng.random() < 0.3:
        kw["temp"] = 0.5
        kw["cooling"] = 0.8
    ctx = {"kw": kw, "keep": keep, "nd": nd}
    kwc = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    with mon.guarded("fitter:AmoebaFitter", **ctx):
        try:
            got = ft.fit(y.copy(), weights=None if w is None else w.copy(), tolerance=1e-10, maxiter=20000,
                         seed=int(rng.integers(1000)), **kwc)
        except ConvergenceError:
            return
        fit = [k for k in range(nd) if not (keep and k in keep)]
        for k in keep or {}:
            mon.expect(got[k] == keep[k], "kept:AmoebaFitter", "%s is not %s" % (got[k], keep[k]), **ctx)
        chi = np.sum(W * (y - A @ got) ** 2)
        mon.close(ft.chisq, chi, "chisq:AmoebaFitter", rtol=1e-9, **ctx)
        mon.close(m.parameters, got, "parameters:AmoebaFitter", **ctx)
        if lo is None:
            off = np.zeros(n)
            for k in keep or {}:
                off = off + A[:, k] * keep[k]
            B = A[:, fit]
            q = np.linalg.solve(B.T @ (W[:, None] * B), B.T @ (W * (y - off)))
            best = np.sum(W * (y - off - B @ q) ** 2)
            mon.expect(chi <= best * 1.02 + 1e-6, "minimum:AmoebaFitter", "chisq %s, minimum %s" % (chi, best), **ctx)
        else:
            g = got[fit]
            mon.expect(np.all((g >= lo[fit]) & (g <= hi[fit])), "limits:AmoebaFitter", got=got, lo=lo, hi=hi, **ctx)
        mon.count("fitter")
    mon.state("fit", nd, keep is not None, lo is not None, w is not None)
    mon.sample("AmoebaFitter with %d parameters" % nd)


CASES = [Case("convergence", convergence, quick=24, thorough=240, chunk=3),
         Case("amoeba", amoeba, quick=1200, thorough=12000, chunk=20), Case("seeded", seeded, quick=24, thorough=300, chunk=6),
         Case("fitter", fitter, quick=120, thorough=2000, chunk=10)]
