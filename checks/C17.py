"""C17  Nested sampling walks uphill within the prior and conserves walkers."""
import math
import numpy as np
import BayesicFitting as bf
import nsrun
from harness import Case

RULE = "distinct = (sampler, engines, error distribution, model, priors, fitted hyperparameters, kept, discard, ensemble)"
ASSUMPTIONS = ["the numbers of walkers and samples follow from ensemble, discard and the number of iterations",
               "problems for which no start of finite likelihood is found are refused by the sampler (documented error); they are skipped"]
REQUIRE = {"stops": 30, "runs": 40, "executes": 10000, "samples": 8000, "kept": 10, "discard>1": 10, "phantom runs": 4, "ties": 0, "boosted": 15, "phantoms": 5000}


class Watch(object):
    """ online checker of the engine executions in one run """

    def __init__(self, mon, r, kept, phantom, tag):
        self.mon, self.r, self.kept, self.phantom, self.tag = mon, r, kept, phantom, tag
        self.low = -math.inf
        self.size = None
        self.n = 0
        self.known = {}

    def __call__(self, eng, kw, low, before, after, moves, kwargs):
        mon, r = self.mon, self.r
        self.n += 1
        mon.count("executes")
        wit = dict(problem=r.text, engine=str(eng), run=self.tag)
        if low > -1e300:
            mon.expect(low >= self.low, "uphill", "constraint goes down from %.10g to %.10g" % (self.low, low), **wit)
            self.low = max(low, self.low)
        if not self.phantom:
            if self.size is None:
                self.size = len(before)
            mon.expect(len(before) == self.size and len(after) == self.size, "ensemble", "%d -> %d walkers, not %d" % (
                len(before), len(after), self.size), **wit)
        mon.expect(before[kw][3] >= low, "replacement", "log likelihood of the walker to be moved %.10g is below %.10g" % (
            before[kw][3], low), **wit)
        nb = len(before)
        for k in range(nb):
            if (k != kw or self.phantom) and not nsrun.same(before[k], after[k]):
                mon.expect(False, "others", "walker %d is altered when moving %d" % (k, kw), **wit)
        mon.expect(True, "others")
        new = after[nb:] if self.phantom else [after[kw]]
        for w in new:
            if self.phantom or not np.array_equal(w[2], before[kw][2]):
                nsrun.valid(mon, r, w[2], w[3], "walker", kept=self.kept, low=low, engine=str(eng), run=self.tag)
        self.last = after


def choose(rng, phantom):
    k = int(rng.integers(0, 6))
    names = list(nsrun.ENGINES)
    if k <= 2:
        return ["galilean", "chord"]
    if k == 3:
        return [names[int(rng.integers(4))]]
    if k == 4:
        return [str(v) for v in rng.choice(names, 2, replace=False)]
    return ["chord", "random"]


def run(mon, rng, idx):
    phantom = rng.random() < 0.15
    r = nsrun.make(rng)
    ens = int(rng.integers(12, 45))
    disc = int(rng.choice([1, 1, 1, 2, 3, 5]))
    names = choose(rng, phantom)
    keep = None
    kept = {}
    n = r.npars + r.nhyp
    if rng.random() < 0.35 and len(r.fitIndex) > 1:
        k = int(rng.choice([q for q in r.fitIndex if q < 0 or q < r.nm]))
        kk = k if k >= 0 else n + k
        lo = r.lo[kk] if np.isfinite(r.lo[kk]) else -2.0
        hi = r.hi[kk] if np.isfinite(r.hi[kk]) else max(lo, 0) + 2.0
        v = float(rng.uniform(lo, hi))
        if kk < r.nm and rng.random() < 0.7:
            v = float(r.s.params[kk])
        kept = {kk: v}
        keep = {(k if rng.random() < 0.5 else kk): v}
        mon.count("kept")
    kinit = keep is not None and rng.random() < 0.4
    tag = "%s %s ensemble %d discard %d keep %s" % ("Phantom" if phantom else "Nested", "+".join(names), ens, disc, keep)
    watch = Watch(mon, r, kept, phantom, tag)
    engs = [nsrun.observed(nsrun.ALL[e], watch)(None, r.errdis, seed=int(rng.integers(1 << 30)),
                                               **({"slow": int(rng.integers(2, 4))} if j > 0 and rng.random() < 0.1 else {}))
            for j, e in enumerate(names)]
    kw = dict(problem=r.problem, distribution=r.errdis, ensemble=ens, seed=int(rng.integers(1 << 30)), engines=engs, verbose=0)
    if rng.random() < 0.3:
        kw["rate"] = float(rng.uniform(0.5, 2.0))
    if kinit:
        kw["keep"] = {0: -77.0} if rng.random() < 0.5 and r.nm > 0 else dict(keep)
    if phantom:
        disc = None
        kw["step"] = int(rng.integers(2, 11))
        cls = bf.PhantomSampler
        mon.count("phantom runs")
    else:
        kw["discard"] = disc
        cls = bf.NestedSampler
        if disc > 1:
            mon.count("discard>1")
    boost = None
    if not phantom and rng.random() < 0.35:
        boost = [True, bf.LevenbergMarquardtFitter, bf.AmoebaFitter, bf.CurveFitter][int(rng.integers(4))]
        kw["bestBoost"] = boost
    ns = cls(**kw)
    ns.maxIterations = int(rng.choice([250, 250, 400]))
    ns.minimumIterations = int(rng.choice([60, 60, 100, 20]))
    if rng.random() < 0.4:
        ns.end = float(rng.uniform(0.5, 3))
    if rng.random() < 0.2:
        ns.tolerance = float(rng.uniform(-4, -1))
    try:
        ev = ns.sample() if kinit and kw["keep"] == keep else ns.sample(keep=keep)
    except RuntimeError as e:
        if "starting" in str(e):
            mon.count("no start")
            return
        raise
    if boost is not None:
        tag += " boost by %s" % (boost if boost is True else boost.__name__)
        used = bf.LevenbergMarquardtFitter if boost is True else boost
        for e in ns.engines:
            mon.expect(isinstance(e.fitter, used), "boost-fitter", "the best is boosted by %s" % type(e.fitter).__name__, run=tag)
            mon.count("boosted", int(e.report[e.BEST]))
    for w in ns.phantoms.phantoms:
        nsrun.valid(mon, r, w.allpars, w.logL, "phantom", kept=kept, run=tag)
        mon.count("phantoms")
    mon.count("runs")
    wit = dict(problem=r.text, run=tag)
    S = ns.samples
    logs = np.array([s.logL for s in S])
    mon.expect(np.all(np.diff(logs) >= 0), "samples-uphill", "log likelihoods of the samples decrease at %s" % np.where(np.diff(logs) < 0)[0][:3],
               **wit)
    # reasons to stop
    it, most = ns.iteration, ns.end * ns.ensemble * ns.info / ns.worst
    if np.isfinite(most) and np.isfinite(ns.logdZ):
        stop = ["small steps"] * bool(ns.logdZ < ns.tolerance) + ["long enough"] * bool(it > most * 0.6 - 10) + [
            "maximum"] * (it > ns.maxIterations)
        said = dict(iterations=it, minimum=ns.minimumIterations, maximum=ns.maxIterations, end=ns.end, info=ns.info, logdZ=ns.logdZ,
                    tolerance=ns.tolerance, **wit)
        mon.expect(it >= ns.minimumIterations, "stop-early", **said)
        # the information has grown a bit with the last walkers
        if ns.tolerance == -12:
            mon.expect(len(stop) > 0, "stop-reason", **said)
        mon.expect(it <= ns.maxIterations + 1, "stop-maximum", **said)
        mon.expect(it <= max(ns.minimumIterations + 1, 3 * most + 60), "stop-late", **said)
        for q in stop:
            mon.count("stop: " + q)
        mon.count("stops")
    if not phantom:
        mon.expect(len(S) == ns.iteration * disc + ens, "samples-number", "%d samples from %d iterations of %d and %d walkers" % (
            len(S), ns.iteration, disc, ens), **wit)
        mon.expect(len(ns.walkers) == ens, "ensemble-end", "%d walkers, not %d" % (len(ns.walkers), ens), **wit)
    for s in S:
        q = np.asarray(s.allpars, dtype=float)
        nsrun.valid(mon, r, q, s.logL, "sample", kept=kept, run=tag)
        mon.count("samples")
    # distinct walkers: points above the constraint are all different
    pts = {tuple(np.asarray(w.allpars, dtype=float)) for w in ns.walkers}
    mon.expect(len(pts) > 0.5 * len(ns.walkers), "distinct", "only %d of %d walkers are different" % (len(pts), len(ns.walkers)), **wit)
    # the observer has seen all that the sampler stored
    ids = [s.id for s in S]
    mon.expect(ids == sorted(set(ids)), "identity", "ids of the samples are not unique and ascending", **wit)
    mon.expect(np.isfinite(ev), "evidence", "evidence is %s" % ev, **wit)
    mon.state(cls.__name__, tuple(names), r.kind, r.name, r.forms, len(r.free), bool(kept), disc)
    mon.sample("run", problem=r.text, run=tag, iterations=ns.iteration, samples=len(S), executes=watch.n)


CASES = [Case("run", run, quick=96, thorough=900)]
